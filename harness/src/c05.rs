//! C05: a mask bit is set exactly if something lies under that child, at every level.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::*;
use crate::mt::{MT, M64, M128, M256, lb, mbit, mzero, paths, dig, then};
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
type S<L> = SparseTree<L, u64>;

/// every bit (symbolic) of every node (symbolic) of every level
fn masks<T: TreeH, const N: usize>(t: &T, m: &Log<N>) {
    let q = tkey::<T>();
    let mut n = 0;
    while n < depth::<T>() {
        let mut c = Cur::<T>::new(t);
        let mask = walk::<T, ConstUsize<0>>(t, &mut c, ConstUsize::<0>, q, n, 0);
        let sh = under::<T>(n);
        check!(bit_at(&mask, digit::<T>(q, n)) == m.any_under(sh, (q >> sh) as u64));
        check!(imp_(m.live() == 0, mask.is_zero()));
        n += 1;
    }
}
fn any<T: TreeH>(kinds: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    masks(&t, &m);
    cover(1);
}
fn filled<T: TreeH>(n: usize, base: usize, stride: usize, kinds: &[u64], sh: u32, w: u32) {
    let mut t = T::new();
    let mut m = Log::<300>::new();
    fill(&mut t, &mut m, n, base, stride);
    history(&mut t, &mut m, kinds, || near(base, sh, w));
    masks(&t, &m);
    cover(1);
}
/// Two histories with the same contents have the same masks everywhere.
fn history_independent<T: TreeH>() {
    let (a, b, c) = (tkey::<T>(), tkey::<T>(), tkey::<T>());
    assume((a != b) & (c != a) & (c != b));
    let mut t = T::new();
    t.ins(a, 1);
    t.ins(b, 2);
    let mut u = T::new();
    u.ins(c, 3);
    u.ins(b, 2);
    u.ins(a, 1);
    u.rem(c);
    let q = tkey::<T>();
    let mut n = 0;
    while n < depth::<T>() {
        let mut x = Cur::<T>::new(&t);
        let mut y = Cur::<T>::new(&u);
        let p = walk::<T, ConstUsize<0>>(&t, &mut x, ConstUsize::<0>, q, n, 0);
        let r = walk::<T, ConstUsize<0>>(&u, &mut y, ConstUsize::<0>, q, n, 0);
        check!(p == r);
        n += 1;
    }
    cover(1);
}

// ---- what lazy trees claim
/// If the tree claims EXACT_HIERARCHY, no child on the way to q is empty.
fn levels<'a, T: HibitTree, N: ConstInteger>(t: &'a T, c: &mut Cur<'a, T>, n: N, q: usize, there: bool) {
    let m = unsafe { c.select_level_node(t, n, arg::<T>(q, N::VALUE)) };
    if T::EXACT_HIERARCHY { check!(imp_(there, !mzero(&m))); }
    if N::VALUE + 1 >= depth::<T>() { return; }
    levels::<T, N::Inc>(t, c, n.inc(), q, mbit(&m, digit::<T>(q, N::VALUE)))
}
fn claim<T: HibitTree>(t: T, q: usize) {
    let mut c: Cur<T> = HibitTreeCursor::new(&t);
    levels::<T, ConstUsize<0>>(&t, &mut c, ConstUsize, q, false);
}
/// every lazy operation over exact and inexact model trees
fn claims<M: BitBlock, const N: usize>() where ConstUsize<N>: ConstInteger {
    let q = paths::<M, N, 1>();
    let k = q[0];
    let e: [MT<M, N, 1, true>; 3] = std::array::from_fn(|i| MT::new(i as u64, q));
    let x: [MT<M, N, 1, false>; 3] = std::array::from_fn(|i| MT::new(i as u64 + 3, q));
    match conc(below(19)) {
        0 => claim(union(&e[0], &e[1]), k),
        1 => claim(union(&e[0], &x[0]), k),
        2 => claim(union(&x[0], &e[0]), k),
        3 => claim(union(&x[0], &x[1]), k),
        4 => claim(intersection(&e[0], &e[1]), k),
        5 => claim(intersection(&x[0], &e[1]), k),
        6 => claim(map(&e[0], |v: u64| v + 1), k),
        7 => claim(map(&x[0], |v: u64| v + 1), k),
        8 => claim(multi_union(e.iter()), k),
        9 => claim(multi_union(x.iter()), k),
        10 => claim(multi_intersection(e.iter()), k),
        11 => claim(multi_intersection(x.iter()), k),
        12 => claim(multi_map_fold(multi_union(e.iter()), || 1u64, |a: u64, b: u64| then(a, b)), k),
        13 => claim(multi_map_fold(multi_union(x.iter()), || 1u64, |a: u64, b: u64| then(a, b)), k),
        14 => claim(multi_map_fold(multi_intersection(e.iter()), || 1u64, |a: u64, b: u64| then(a, b)), k),
        15 => claim(union(intersection(&e[0], &e[1]), &e[2]), k),
        16 => claim(union(&e[0], map(intersection(&e[1], &e[2]), |v: (u64, u64)| v.0)), k),
        17 => claim(union(union(&e[0], &e[1]), map(&e[2], |v: u64| v)), k),
        _ => claim(multi_union([intersection(&e[0], &e[1]), intersection(&e[1], &e[2])].iter()), k),
    }
    cover(1);
}
harnesses! {
fn c05_any3_dense_d1() { any::<D<1>>(&[3, 3, 3]) }
fn c05_any3_dense_d2() { any::<D<2>>(&[3, 3, 3]) }
fn c05_iir_dense_d3() { any::<D<3>>(&[INS, INS, REM]) }
fn c05_any2_dense_d4() { any::<D<4>>(&[3, 3]) }
fn c05_any2_dense_d6() { any::<D<6>>(&[3, 3]) }
fn c05_any2_dense_d9() { any::<D<9>>(&[3, 3]) }
fn c05_any3_w64_d1() { any::<S1>(&[3, 3, 3]) }
fn c05_any3_w64_d2() { any::<S2>(&[3, 3, 3]) }
fn c05_iirr_w64_d2() { any::<S2>(&[INS, INS, REM, REM]) }
fn c05_any3_w64_d3() { any::<S3>(&[3, 3, 3]) }
fn c05_any2_w64_d5() { any::<S<w64::depth_5>>(&[3, 3]) }
fn c05_any2_w64_d8() { any::<S<w64::depth_8>>(&[3, 3]) }
fn c05_any3_w128_d1() { any::<S128_1>(&[3, 3, 3]) }
fn c05_any3_w128_d2() { any::<S128_2>(&[3, 3, 3]) }
fn c05_any2_w128_d4() { any::<S<w128::depth_4>>(&[3, 3]) }
fn c05_any3_w256_d1() { any::<S256_1>(&[3, 3, 3]) }
fn c05_any3_w256_d2() { any::<S256_2>(&[3, 3, 3]) }
fn c05_any2_w256_d4() { any::<S<w256::depth_4>>(&[3, 3]) }
fn c05_any2_w256_d8() { any::<S<w256::depth_8>>(&[3, 3]) }
fn c05_filled_dense() { filled::<D<2>>(5, 62, 1, &[REM, REM], 0, 3) }
fn c05_filled_w64() { filled::<S2>(5, 62, 1, &[REM, REM], 0, 3) }
fn c05_filled_w128() { filled::<S128_2>(5, 126, 1, &[REM, REM], 0, 3) }
fn c05_filled_w256() { filled::<S256_1>(5, 62, 1, &[REM, REM], 0, 8) }
fn c05_same_dense_d2() { history_independent::<D<2>>() }
fn c05_same_w64_d3() { history_independent::<S3>() }
fn c05_same_w256_d2() { history_independent::<S256_2>() }
fn c05t_any3_w64_d5() { any::<S<w64::depth_5>>(&[3, 3, 3]) }
fn c05t_any4_w64_d2() { any::<S2>(&[3, 3, 3, 3]) }
fn c05t_any3_dense_d3() { any::<D<3>>(&[3, 3, 3]) }
fn c05t_any3_w256_d4() { any::<S<w256::depth_4>>(&[3, 3, 3]) }
fn c05t_same_dense_d3() { history_independent::<D<3>>() }
fn c05_grid_dense_d3() { grid::<D<3>, 16>(&[0, 6, 12], false, &[REM, REM, 3], masks) }
fn c05_grid_dense_d4() { grid::<D<4>, 16>(&[0, 6, 18], false, &[REM, REM, REM], masks) }
fn c05_grid_w64_d3() { grid::<S3, 16>(&[0, 6, 12], false, &[REM, REM, 3], masks) }
fn c05_grid_w128_d2() { grid::<S128_2, 16>(&[0, 7], false, &[REM, REM, REM, 3], masks) }
fn c05_grid_w256_d3() { grid::<S<w256::depth_3>, 16>(&[0, 8, 16], false, &[REM, REM, REM], masks) }
fn c05_churn_dense_d3() { churn::<D<3>, 32>(3, 65, 4096, 1, 3, &[3, 3], masks) }
fn c05_churn_w64_d3() { churn::<S3, 32>(3, 65, 4096, 1, 3, &[3, 3], masks) }
fn c05_claims_m64_d1() { claims::<M64, 1>() }
fn c05_claims_m64_d2() { claims::<M64, 2>() }
fn c05_claims_m64_d3() { claims::<M64, 3>() }
fn c05_claims_m128_d2() { claims::<M128, 2>() }
fn c05_claims_m256_d2() { claims::<M256, 2>() }
fn c05_claims_m64_d5() { claims::<M64, 5>() }
}

//! C12: a DenseTree made from another tree has its contents and is a full DenseTree.
use crate::{check, harnesses};
use crate::model::*;
use crate::mt::{MT, M64, two, both, pair};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
type W<T> = LM<T>;

/// exactly the contents of the log: get, node masks, iteration, key_values
fn exact<const N: usize, const L: usize>(t: &DenseTree<u64, N>, m: &Log<L>) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let how = conc(below(3));
    if how == 0 {
        let q = tkey::<DenseTree<u64, N>>();
        check!(t.gt(q) == m.get(q));
        let mut n = 0;
        while n < N {
            let mut c = Cur::<DenseTree<u64, N>>::new(t);
            let mask = walk::<DenseTree<u64, N>, ConstUsize<0>>(t, &mut c, ConstUsize::<0>, q, n, 0);
            let sh = under::<DenseTree<u64, N>>(n);
            check!(bit_at(&mask, digit::<DenseTree<u64, N>>(q, n)) == m.any_under(sh, (q >> sh) as u64));
            check!(imp_(m.live() == 0, mask.is_zero()));
            n += 1;
        }
    } else if how == 1 { iter_exact(t, m) }
    else { kv_exact(t, m) }
}
/// what the source contains, and then further operations
fn after<const N: usize>(mut t: DenseTree<u64, N>, q: [usize; 2], want: [u64; 2], kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let mut m = Log::<8>::new();
    m.set(q[0], want[0]);
    m.set(q[1], want[1]);
    history(&mut t, &mut m, kinds, || tkey::<DenseTree<u64, N>>());
    exact(&t, &m);
    cover(1);
}
/// the two paths are one, if they do not part
fn w2<const N: usize>(q: [usize; 2], a: u64, b: u64) -> [u64; 2] { [a, ite(q[0] == q[1], a, b)] }
/// the tree itself
fn plain<const N: usize, const X: bool>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let (q, c) = two::<M64, N>();
    let a = MT::<M64, N, 2, X>::of(1, q, c);
    let w = [a.at(q[0]), a.at(q[1])];
    after(<DenseTree<u64, N> as FromHibitTree<_>>::from_sparse_hierarchy(a), q, w, kinds);
}
/// at most one index
fn deep<const N: usize, const X: bool>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let q = key(6 * N as u32);
    let a = MT::<M64, N, 1, X>::of(1, [q], N - 1);
    let w = a.at(q);
    let t = <DenseTree<u64, N> as FromHibitTree<_>>::from_sparse_hierarchy(a);
    check!(t.gt(q) == w);
    after(t, [q, q], [w, w], kinds);
}
/// an intersection: masks with false bits
fn inter<const N: usize>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let (q, c) = two::<M64, N>();
    let a = MT::<M64, N, 2, true>::of(1, q, c);
    let b = MT::<M64, N, 2, true>::of(2, q, c);
    let w = [0, 1].map(|i| both(a.at(q[i]), b.at(q[i]), pair(a.at(q[i]), b.at(q[i])) | 1));
    after(intersection(&a, &b).map(|(x, y): (u64, u64)| pair(x, y) | 1).materialize::<DenseTree<u64, N>>(), q, w, kinds);
}
/// an exact source that is lazy
fn unite<const N: usize>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let (q, c) = two::<M64, N>();
    let a = MT::<M64, N, 2, true>::of(1, q, c);
    let b = MT::<M64, N, 2, true>::of(2, q, c);
    let w = [0, 1].map(|i| crate::mt::either(a.at(q[i]), b.at(q[i]), pair(a.at(q[i]), b.at(q[i])) | 1));
    after(union(&a, &b).map(|(x, y): (Option<u64>, Option<u64>)| pair(o0(x), o0(y)) | 1).materialize::<DenseTree<u64, N>>(), q, w, kinds);
}
/// a multi operation, folded
fn folded<const N: usize>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let (q, c) = two::<M64, N>();
    let a: [MT<M64, N, 2, true>; 2] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    let w = [0, 1].map(|i| both(a[0].at(q[i]), a[1].at(q[i]), pair(a[0].at(q[i]), a[1].at(q[i])) | 1));
    after(multi_intersection(a.iter()).map_fold(|| 0u64, |x: u64, y: u64| ite(x == 0, y, pair(x, y) | 1)).materialize::<DenseTree<u64, N>>(), q, w, kinds);
}
fn folded_u<const N: usize>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let (q, c) = two::<M64, N>();
    let a: [MT<M64, N, 2, false>; 2] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    let w = [0, 1].map(|i| { let (x, y) = (a[0].at(q[i]), a[1].at(q[i])); ite((x != 0) & (y != 0), pair(x, y) | 1, x | y) });
    after(multi_union(a.iter()).map_fold(|| 0u64, |x: u64, y: u64| ite(x == 0, y, pair(x, y) | 1)).materialize::<DenseTree<u64, N>>(), q, w, kinds);
}
/// no index at all, but all upper mask bits that an empty tree may claim
fn void<const N: usize, const X: bool>(kinds: &[u64]) where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: TreeH {
    let q = [key(6 * N as u32), key(6 * N as u32)];
    let a = MT::<M64, N, 2, X>::fixed(1, q, false);
    after(<DenseTree<u64, N> as FromHibitTree<_>>::from_sparse_hierarchy(a), q, [0, 0], kinds);
}
/// real containers with n symbolic indices; how: 0 map of the container, 1 intersection of two, 2 union of two
macro_rules! real { ($A:ty, $N:literal; $how:expr, $w:expr, $sh:expr, $base:expr, $kinds:expr) => {{
    let k = [0; 3].map(|_| $base ^ (key($w) << $sh));
    let (mut a, mut b) = (<$A>::new(), <$A>::new());
    let (mut ma, mut mb) = (Log::<8>::new(), Log::<8>::new());
    a.ins(k[0], 11);
    ma.set(k[0], 11);
    a.ins(k[1], 12);
    ma.set(k[1], 12);
    b.ins(k[1], 21);
    mb.set(k[1], 21);
    b.ins(k[2], 22);
    mb.set(k[2], 22);
    let mut m = Log::<8>::new();
    let mut t = match $how {
        0 => { m = ma; map(&a, |v: &u64| *v).materialize::<DenseTree<u64, $N>>() }
        1 => {
            for i in 0..3 { let (x, y) = (ma.get(k[i]), mb.get(k[i])); m.set(k[i], both(x, y, x * 100 + y)); }
            intersection(&a, &b).map(|(x, y): (&u64, &u64)| *x * 100 + *y).materialize::<DenseTree<u64, $N>>()
        }
        _ => {
            for i in 0..3 { let (x, y) = (ma.get(k[i]), mb.get(k[i])); m.set(k[i], x * 100 + y); }
            union(&a, &b).map(|(x, y): (Option<&u64>, Option<&u64>)| v0(x) * 100 + v0(y)).materialize::<DenseTree<u64, $N>>()
        }
    };
    drop(a);
    drop(b);
    history(&mut t, &mut m, $kinds, || $base ^ (key($w) << $sh));
    exact(&t, &m);
    cover(1);
}} }
/// nodes with n children, copied, then one operation on any child
macro_rules! filled { ($N:literal; $n:expr, $sh:expr, $kinds:expr, $lazy:expr) => {{
    let mut a = DenseTree::<u64, $N>::new();
    let mut m = Log::<80>::new();
    let mut last = 0;
    fill(&mut a, &mut m, $n, 0, 1usize << $sh);
    let mut t = if $lazy { intersection(&a, &a).map(|(x, _): (&u64, &u64)| *x).materialize::<DenseTree<u64, $N>>() } else { map(&a, |x: &u64| *x).materialize::<DenseTree<u64, $N>>() };
    history(&mut t, &mut m, $kinds, || { last = (if $n > 40 && $sh > 0 { conc(bits(6)) as usize } else { key(6) }) << $sh; last });
    if $n > 40 && $sh > 0 { let q = last ^ (key(2) << $sh) ^ key(1); check!(t.gt(q) == m.get(q)); } else { same(&t, &m); }
    cover(1);
}} }
harnesses! {
fn c12_plain_x_d1() { plain::<1, true>(&[3]) }
fn c12_plain_x_d2() { plain::<2, true>(&[3]) }
fn c12_plain_x_d3() { plain::<3, true>(&[REM]) }
fn c12_plain_n_d1() { plain::<1, false>(&[3]) }
fn c12_plain_n_d2() { plain::<2, false>(&[3]) }
fn c12_plain_n_d3() { plain::<3, false>(&[]) }
fn c12t_plain_n_d4() { plain::<4, false>(&[]) }
fn c12_plain_rr_d2() { plain::<2, false>(&[REM, REM]) }
fn c12_inter_d1() { inter::<1>(&[3]) }
fn c12_inter_d2() { inter::<2>(&[3]) }
fn c12t_inter_d3() { inter::<3>(&[]) }
fn c12_union_d1() { unite::<1>(&[INS]) }
fn c12_union_d2() { unite::<2>(&[]) }
fn c12_union_d3() { unite::<3>(&[]) }
fn c12_foldi_d2() { folded::<2>(&[INS]) }
fn c12_foldu_d2() { folded_u::<2>(&[]) }
fn c12_void_x_d1() { void::<1, true>(&[3, 3]) }
fn c12_void_n_d1() { void::<1, false>(&[3, 3]) }
fn c12_void_x_d3() { void::<3, true>(&[3, 3]) }
fn c12_void_n_d3() { void::<3, false>(&[3, 3]) }
fn c12_void_n_d9() { void::<9, false>(&[3, 3]) }
fn c12_real_map_d1() { real!(D<1>, 1; 0, 6, 0, 0, &[3]) }
fn c12_real_map_d2() { real!(D<2>, 2; 0, 12, 0, 0, &[REM]) }
fn c12_real_map_s2() { real!(S2, 2; 0, 12, 0, 0, &[REM]) }
fn c12_real_inter_d2() { real!(D<2>, 2; 1, 12, 0, 0, &[3]) }
fn c12t_real_inter_s3() { real!(S3, 3; 1, 12, 6, 0x21, &[INS]) }
fn c12_real_union_d2() { real!(D<2>, 2; 2, 12, 0, 0, &[]) }
fn c12_filled1_d2() { filled!(2; 1, 0, &[3], false) }
fn c12_filled3_d2() { filled!(2; 3, 0, &[3, 3], true) }
fn c12_filled31_d1() { filled!(1; 31, 0, &[3], true) }
fn c12_filled63_d1() { filled!(1; 63, 0, &[3], false) }
fn c12_filled64_d2() { filled!(2; 64, 0, &[3], true) }
fn c12_filled64_up_d2() { filled!(2; 64, 6, &[REM], true) }
fn c12_filled63_up_d2() { filled!(2; 63, 6, &[INS], true) }
fn c12t_plain_n_d3i() { plain::<3, false>(&[INS]) }
fn c12t_union_d2i() { unite::<2>(&[3]) }
fn c12t_foldu_d2i() { folded_u::<2>(&[INS]) }
fn c12_plain_x_d5() { plain::<5, true>(&[]) }
fn c12_plain_x_d7() { plain::<7, true>(&[]) }
fn c12_plain_x_d8() { plain::<8, true>(&[]) }
fn c12_plain_x_d9() { plain::<9, true>(&[]) }
fn c12_deep_n_d4() { deep::<4, false>(&[]) }
fn c12_deep_x_d4() { deep::<4, true>(&[3]) }
fn c12_deep_n_d5() { deep::<5, false>(&[]) }
fn c12_deep_n_d6() { deep::<6, false>(&[]) }
fn c12_deep_x_d6() { deep::<6, true>(&[3]) }
fn c12_deep_n_d7() { deep::<7, false>(&[]) }
fn c12_deep_n_d8() { deep::<8, false>(&[]) }
fn c12_deep_n_d9() { deep::<9, false>(&[]) }
fn c12_deep_x_d9() { deep::<9, true>(&[REM]) }
fn c12t_plain_x_d4() { plain::<4, true>(&[INS]) }
fn c12t_plain_n_d5() { plain::<5, false>(&[]) }
fn c12t_plain_n_rii_d2() { plain::<2, false>(&[REM, INS, INS]) }
fn c12t_inter_d4() { inter::<4>(&[]) }
}

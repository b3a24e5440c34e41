//! C03: iteration yields exactly the contents, ascending.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
type S<L> = SparseTree<L, u64>;

fn any<T: Tree>(kinds: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    iter_exact(&t, &m);
    cover(1);
}
/// concrete contents (a chain of neighbours across node borders) and one symbolic op near them
fn around<T: Tree>(n: usize, base: usize, stride: usize, kinds: &[u64], sh: u32, w: u32) {
    let mut t = T::new();
    let mut m = Log::<300>::new();
    fill(&mut t, &mut m, n, base, stride);
    history(&mut t, &mut m, kinds, || near(base, sh, w));
    iter_exact(&t, &m);
    cover(1);
}
/// wide nodes: the keys differ in the digit of one level only (all of its values); which 64-bit
/// word of the node each falls in is enumerated
fn level<T: TreeH>(kinds: &[u64], lvl: usize) {
    let sh = under::<T>(lvl);
    let base = 0x5bd1_e995_9b3a_7c41usize & if T::BITS == 64 { usize::MAX } else { (1usize << T::BITS) - 1 };
    let base = base & !((LM::<T>::SIZE - 1) << sh);
    let w = if T::BITS - sh < T::LB { T::BITS - sh } else { T::LB };
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || { let hi = if w > 6 { conc(bits(w - 6)) as usize } else { 0 }; base | ((hi << 6 | key(6)) << sh) });
    iter_exact(&t, &m);
    cover(1);
}
/// full node, operations on every child
fn full<T: TreeH>(kinds: &[u64], lvl: usize) {
    let sh = under::<T>(lvl);
    let mut t = T::new();
    let mut m = Log::<300>::new();
    fill(&mut t, &mut m, LM::<T>::SIZE, 0, 1 << sh);
    history(&mut t, &mut m, kinds, || (conc(bits(T::LB)) as usize) << sh);
    iter_exact(&t, &m);
    cover(1);
}
/// a second iterator, created while the first is half way, starts from the first item
fn restart<T: TreeH>() where for<'a> T: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, T: RegularHibitTree {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, &[INS, INS], || tkey::<T>());
    let mut a = HibitTree::iter(&t);
    let first = Iterator::next(&mut a).map(|(k, v)| (k, *v));
    let mut b = HibitTree::iter(&t);
    let again = Iterator::next(&mut b).map(|(k, v)| (k, *v));
    match (first, again) {
        (Some((k, v)), Some((k2, v2))) => { check!((k == k2) & (v == v2) & (v == m.get(k))); }
        _ => check!(false),
    }
    loop {
        match (Iterator::next(&mut a), Iterator::next(&mut b)) {
            (Some((k, v)), Some((k2, v2))) => { check!((k == k2) & (*v == *v2)); }
            (None, None) => break,
            _ => check!(false),
        }
    }
    // and the tree is unchanged by iteration
    iter_exact(&t, &m);
    cover(1);
}
harnesses! {
fn c03_any3_dense_d1() { any::<D<1>>(&[3, 3, 3]) }
fn c03_any3_dense_d2() { any::<D<2>>(&[3, 3, 3]) }
fn c03_iir_dense_d3() { any::<D<3>>(&[INS, INS, REM]) }
fn c03_iii_dense_d3() { any::<D<3>>(&[INS, INS, INS]) }
fn c03_iir_dense_d4() { any::<D<4>>(&[INS, INS, REM]) }
fn c03_any2_dense_d5() { any::<D<5>>(&[3, 3]) }
fn c03_any2_dense_d7() { any::<D<7>>(&[3, 3]) }
fn c03_any2_dense_d9() { any::<D<9>>(&[3, 3]) }
fn c03_any3_w64_d1() { any::<S1>(&[3, 3, 3]) }
fn c03_any3_w64_d2() { any::<S2>(&[3, 3, 3]) }
fn c03_any3_w64_d3() { any::<S3>(&[3, 3, 3]) }
fn c03_any3_w64_d4() { any::<S4>(&[3, 3, 3]) }
fn c03_any2_w64_d6() { any::<S<w64::depth_6>>(&[3, 3]) }
fn c03_any2_w64_d8() { any::<S<w64::depth_8>>(&[3, 3]) }
fn c03_any3_w128_d1() { any::<S128_1>(&[3, 3, 3]) }
fn c03_any2_w128_d2() { any::<S128_2>(&[3, 3]) }
fn c03_any2_w128_d3() { any::<S<w128::depth_3>>(&[3, 3]) }
fn c03_around_dense_d3() { around::<D<3>>(6, 4094, 1, &[3], 0, 3) }
fn c03_around_w64_d2() { around::<S2>(12, 58, 1, &[3, REM], 0, 6) }
fn c03_around_w128_d2() { around::<S128_2>(6, 125, 1, &[3], 0, 7) }
fn c03_around_w256_d1() { around::<S256_1>(4, 62, 64, &[3], 0, 8) }
fn c03_level_w128_d1() { level::<S128_1>(&[3, 3, 3], 0) }
fn c03_level0_w128_d2() { level::<S128_2>(&[3, 3, 3], 0) }
fn c03_level1_w128_d2() { level::<S128_2>(&[3, 3, 3], 1) }
fn c03_level0_w128_d8() { level::<S<w128::depth_8>>(&[3, 3], 0) }
fn c03_level4_w128_d8() { level::<S<w128::depth_8>>(&[3, 3], 4) }
fn c03_level7_w128_d8() { level::<S<w128::depth_8>>(&[3, 3], 7) }
fn c03_level_w256_d1() { level::<S256_1>(&[INS, INS, REM], 0) }
fn c03_level0_w256_d2() { level::<S256_2>(&[3, 3], 0) }
fn c03_level1_w256_d2() { level::<S256_2>(&[3, 3], 1) }
fn c03_level0_w256_d3() { level::<S<w256::depth_3>>(&[3, 3], 0) }
fn c03_level1_w256_d3() { level::<S<w256::depth_3>>(&[3, 3], 1) }
fn c03_level2_w256_d3() { level::<S<w256::depth_3>>(&[3, 3], 2) }
fn c03_level0_w256_d4() { level::<S<w256::depth_4>>(&[INS, INS], 0) }
fn c03_level0_w256_d8() { level::<S<w256::depth_8>>(&[3, 3], 0) }
fn c03_level5_w256_d8() { level::<S<w256::depth_8>>(&[3, 3], 5) }
fn c03_level7_w256_d8() { level::<S<w256::depth_8>>(&[3, 3], 7) }
fn c03_full_w64_d1() { full::<S1>(&[REM], 0) }
fn c03_full0_w64_d2() { full::<S2>(&[REM], 0) }
fn c03_full0_dense_d2() { full::<D<2>>(&[REM], 0) }
fn c03_full1_dense_d2() { full::<D<2>>(&[REM], 1) }
fn c03_full0_w128_d1() { full::<S128_1>(&[REM], 0) }
fn c03t_full0_w256_d1() { full::<S256_1>(&[REM], 0) }
fn c03t_full0_w256_d2() { full::<S256_2>(&[REM], 0) }
fn c03_restart_dense() { restart::<D<2>>() }
fn c03_restart_w128() { restart::<S128_2>() }
fn c03t_any4_w64_d2() { any::<S2>(&[3, 3, 3, 3]) }
fn c03t_any3_dense_d4() { any::<D<4>>(&[3, 3, 3]) }
fn c03t_any3_w128_d2() { any::<S128_2>(&[3, 3, 3]) }
fn c03t_any2_w256_d2() { any::<S256_2>(&[3, 3]) }
fn c03t_level_w256_d1() { level::<S256_1>(&[3, 3, 3], 0) }
fn c03t_any3_w64_d8() { any::<S<w64::depth_8>>(&[3, 3, 3]) }
fn c03_grid_dense_d3() { grid::<D<3>, 16>(&[0, 6, 12], false, &[3, 3], iter_exact) }
fn c03_grid_dense_d4() { grid::<D<4>, 32>(&[0, 6, 12, 18], false, &[REM, 3], iter_exact) }
fn c03_grid_dense_d6() { grid::<D<6>, 32>(&[0, 6, 18, 30], false, &[REM, REM], iter_exact) }
fn c03_grid_dense_d9() { grid::<D<9>, 32>(&[6, 18, 42, 48], false, &[REM, REM], iter_exact) }
fn c03_grid_w64_d4() { grid::<S4, 32>(&[0, 6, 12, 18], false, &[REM, 3], iter_exact) }
fn c03_grid_w64_d8() { grid::<S<w64::depth_8>, 32>(&[0, 6, 18, 42], false, &[REM, REM], iter_exact) }
fn c03_grid_w128_d3() { grid::<S<w128::depth_3>, 16>(&[0, 7, 14], false, &[REM, 3], iter_exact) }
fn c03_grid_w128_d8() { grid::<S<w128::depth_8>, 32>(&[0, 14, 42, 49], false, &[REM, REM], iter_exact) }
fn c03_grid_w256_d3() { grid::<S<w256::depth_3>, 16>(&[0, 8, 16], false, &[REM, 3], iter_exact) }
fn c03_grid_w256_d8() { grid::<S<w256::depth_8>, 32>(&[0, 24, 48, 56], false, &[REM, REM], iter_exact) }
fn c03_churn_dense_d3() { churn::<D<3>, 32>(4, 65, 4096, 2, 2, &[3], iter_exact) }
fn c03_churn_w64_d3() { churn::<S3, 32>(4, 65, 4096, 2, 2, &[3], iter_exact) }
fn c03_churn_w128_d2() { churn::<S128_2, 32>(4, 65, 128, 2, 2, &[3], iter_exact) }
fn c03_churn_w256_d2() { churn::<S256_2, 32>(4, 65, 256, 2, 2, &[3], iter_exact) }
}

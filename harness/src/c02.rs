//! C02: SparseTree is a map from index to value in every configuration.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
type S<L> = SparseTree<L, u64>;

fn get_mut_same<T: Tree, const N: usize>(t: &mut T, m: &mut Log<N>) {
    let q = tkey::<T>();
    let want = m.get(q);
    let p = match t.gmut(q) { Some(r) => { let v = *r; *r = v + 7; v } None => 0 };
    check!(p == want);
    m.set(q, ite(want == 0, 0, want.wrapping_add(7)));
}
/// any history of operations of the given kinds (3: any), then any query
fn any<T: Tree>(kinds: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    same(&t, &m);
    cover(1);
}
/// writes through get_mut in between
fn with_get_mut<T: Tree>(a: &[u64], b: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, a, || tkey::<T>());
    get_mut_same(&mut t, &mut m);
    history(&mut t, &mut m, b, || tkey::<T>());
    same(&t, &m);
    cover(1);
}
/// keys that share all but one level
fn boundary<T: Tree>(n: usize, base: usize, stride: usize, kinds: &[u64], sh: u32, w: u32) {
    let mut t = T::new();
    let mut m = Log::<300>::new();
    fill(&mut t, &mut m, n, base, stride);
    history(&mut t, &mut m, kinds, || near(base, sh, w));
    same(&t, &m);
    cover(1);
}
harnesses! {
fn c02_any3_w64_d1() { any::<S1>(&[3, 3, 3]) }
fn c02_any3_w64_d2() { any::<S2>(&[3, 3, 3]) }
fn c02_iirr_w64_d2() { any::<S2>(&[INS, INS, REM, REM]) }
fn c02_irir_w64_d3() { any::<S3>(&[INS, REM, INS, REM]) }
fn c02_iir_w64_d4() { any::<S4>(&[INS, INS, REM]) }
fn c02_any3_w64_d5() { any::<S<w64::depth_5>>(&[3, 3, 3]) }
fn c02_any3_w64_d6() { any::<S<w64::depth_6>>(&[3, 3, 3]) }
fn c02_any3_w64_d7() { any::<S<w64::depth_7>>(&[3, 3, 3]) }
fn c02_any3_w64_d8() { any::<S<w64::depth_8>>(&[3, 3, 3]) }
fn c02_any3_w128_d1() { any::<S128_1>(&[3, 3, 3]) }
fn c02_any3_w128_d2() { any::<S128_2>(&[3, 3, 3]) }
fn c02_any3_w128_d3() { any::<S<w128::depth_3>>(&[3, 3, 3]) }
fn c02_any3_w128_d4() { any::<S<w128::depth_4>>(&[3, 3, 3]) }
fn c02_any3_w128_d5() { any::<S<w128::depth_5>>(&[3, 3, 3]) }
fn c02_any3_w128_d6() { any::<S<w128::depth_6>>(&[3, 3, 3]) }
fn c02_any3_w128_d7() { any::<S<w128::depth_7>>(&[3, 3, 3]) }
fn c02_any3_w128_d8() { any::<S<w128::depth_8>>(&[3, 3, 3]) }
fn c02_any3_w256_d1() { any::<S256_1>(&[3, 3, 3]) }
fn c02_any3_w256_d2() { any::<S256_2>(&[3, 3, 3]) }
fn c02_any3_w256_d3() { any::<S<w256::depth_3>>(&[3, 3, 3]) }
fn c02_any3_w256_d4() { any::<S<w256::depth_4>>(&[3, 3, 3]) }
fn c02_any3_w256_d5() { any::<S<w256::depth_5>>(&[3, 3, 3]) }
fn c02_any3_w256_d6() { any::<S<w256::depth_6>>(&[3, 3, 3]) }
fn c02_any3_w256_d7() { any::<S<w256::depth_7>>(&[3, 3, 3]) }
fn c02_any3_w256_d8() { any::<S<w256::depth_8>>(&[3, 3, 3]) }
fn c02_getmut_w64_d2() { with_get_mut::<S2>(&[INS, INS], &[3]) }
fn c02_getmut_w128_d2() { with_get_mut::<S128_2>(&[INS, INS], &[REM]) }
fn c02_getmut_w256_d1() { with_get_mut::<S256_1>(&[INS, INS], &[REM]) }
fn c02_b31_w64_d2() { boundary::<S2>(31, 64, 2, &[3], 0, 6) }
fn c02_b31_up_w64_d2() { boundary::<S2>(31, 5, 64, &[3], 6, 6) }
fn c02_b130_w256_d1() { boundary::<S256_1>(130, 0, 1, &[3], 0, 8) }
fn c02t_b254_w256_d2() { boundary::<S256_2>(254, 0, 256, &[3], 8, 2) }
fn c02_b126_w128_d2() { boundary::<S128_2>(126, 1, 128, &[3], 7, 2) }
fn c02_any4_w64_d2() { any::<S2>(&[3, 3, 3, 3]) }
fn c02_any4_w256_d2() { any::<S256_2>(&[3, 3, 3, 3]) }
fn c02_any4_w128_d1() { any::<S128_1>(&[3, 3, 3, 3]) }
fn c02_any4_w256_d1() { any::<S256_1>(&[3, 3, 3, 3]) }
fn c02_any5_w64_d1() { any::<S1>(&[3, 3, 3, 3, 3]) }
fn c02t_any5_w64_d2() { any::<S2>(&[3, 3, 3, 3, 3]) }
fn c02t_any5_w256_d1() { any::<S256_1>(&[3, 3, 3, 3, 3]) }
fn c02t_any4_w64_d3() { any::<S3>(&[3, 3, 3, 3]) }
fn c02_grid_w64_d2() { grid::<S2, 16>(&[0, 6], true, &[3, 3, 3], same) }
fn c02_grid_w64_d3() { grid::<S3, 16>(&[0, 6, 12], true, &[REM, REM, 3], same) }
fn c02_grid_w64_d4() { grid::<S4, 32>(&[0, 6, 12, 18], true, &[REM], same) }
fn c02_grid_w64_d8() { grid::<S<w64::depth_8>, 32>(&[0, 12, 30, 42], true, &[REM], same) }
fn c02_grid_w128_d3() { grid::<S<w128::depth_3>, 16>(&[0, 7, 14], true, &[REM, REM], same) }
fn c02_grid_w128_d8() { grid::<S<w128::depth_8>, 32>(&[0, 7, 28, 49], true, &[REM], same) }
fn c02_grid_w256_d3() { grid::<S<w256::depth_3>, 16>(&[0, 8, 16], true, &[REM, REM], same) }
fn c02_grid_w256_d8() { grid::<S<w256::depth_8>, 32>(&[0, 8, 32, 56], true, &[REM], same) }
fn c02_churn_w64_d2() { churn::<S2, 32>(4, 65, 64, 1, 2, &[3, 3, 3], same) }
fn c02_churn_w64_d3() { churn::<S3, 32>(4, 65, 4096, 2, 2, &[3, 3], same) }
fn c02_churn3_w64_d2() { churn::<S2, 32>(4, 65, 64, 1, 3, &[INS, INS, INS], same) }
fn c02_churn_w128_d2() { churn::<S128_2, 32>(4, 65, 128, 1, 2, &[3, 3], same) }
fn c02_churn_w128_d3() { churn::<S<w128::depth_3>, 32>(3, 65, 128 * 128, 1, 2, &[INS, INS], same) }
fn c02_churn_w256_d2() { churn::<S256_2, 32>(4, 65, 256, 1, 2, &[3, 3], same) }
fn c02_churn_w256_d4() { churn::<S<w256::depth_4>, 32>(3, 65, 1 << 16, 1, 2, &[INS, INS], same) }
fn c02_bulk_w64_d2() { bulk::<S2>(300, 7, 13) }
fn c02_bulk_w64_d3() { bulk::<S3>(65_700, 3, 3) }
fn c02_bulk_w64_d4() { bulk::<S4>(300, 3, 55_555) }
fn c02_bulk_w128_d2() { bulk::<S128_2>(300, 7, 54) }
fn c02_bulk_w256_d2() { bulk::<S256_2>(300, 7, 217) }
fn c02_bulk_w128_d3() { bulk::<S<w128::depth_3>>(300, 1, 6_900) }
fn c02_bulk_w256_d3() { bulk::<S<w256::depth_3>>(300, 1, 55_555) }
}

//! C01: the compressed container is a map from index to value.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;

/// any history of `N` operations of any kind, then any query
fn any<T: Tree>(kinds: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    same(&t, &m);
    cover(1);
}
/// node with n children at some level, then operations with a symbolic key
fn boundary<T: Tree>(n: usize, base: usize, stride: usize, kinds: &[u64], sh: u32, w: u32) {
    let mut t = T::new();
    let mut m = Log::<80>::new();
    fill(&mut t, &mut m, n, base, stride);
    history(&mut t, &mut m, kinds, || near(base, sh, w));
    same(&t, &m);
    cover(1);
}
harnesses! {
fn c01_any3_d1() { any::<D<1>>(&[3, 3, 3]) }
fn c01_any3_d2() { any::<D<2>>(&[3, 3, 3]) }
fn c01_iirr_d2() { any::<D<2>>(&[INS, INS, REM, REM]) }
fn c01_irir_d3() { any::<D<3>>(&[INS, REM, INS, REM]) }
fn c01_any2_d4() { any::<D<4>>(&[3, 3]) }
fn c01_iir_d4() { any::<D<4>>(&[INS, INS, REM]) }
fn c01_any2_d6() { any::<D<6>>(&[3, 3]) }
fn c01_any2_d9() { any::<D<9>>(&[3, 3]) }
fn c01_b7_d2() { boundary::<D<2>>(7, 64, 3, &[3], 0, 6) }
fn c01_b31_d2() { boundary::<D<2>>(31, 64, 2, &[3], 0, 6) }
fn c01_b63_d2() { boundary::<D<2>>(63, 64, 1, &[3], 0, 6) }
fn c01_b31_up_d2() { boundary::<D<2>>(31, 5, 64, &[3], 6, 6) }
fn c01t_any4_d2() { any::<D<2>>(&[3, 3, 3, 3]) }
fn c01_grid_d2() { grid::<D<2>, 16>(&[0, 6], true, &[3, 3, 3], same) }
fn c01_grid_d3() { grid::<D<3>, 16>(&[0, 6, 12], true, &[REM, 3], same) }
fn c01_grid_d4() { grid::<D<4>, 32>(&[0, 6, 12, 18], true, &[REM], same) }
fn c01_grid3_d4() { grid::<D<4>, 16>(&[0, 6, 18], true, &[REM, REM], same) }
fn c01_grid3b_d4() { grid::<D<4>, 16>(&[0, 12, 18], true, &[REM, REM], same) }
fn c01_grid_d6() { grid::<D<6>, 32>(&[0, 12, 18, 30], true, &[REM], same) }
fn c01_grid_d9() { grid::<D<9>, 32>(&[0, 6, 24, 48], true, &[REM], same) }
fn c01_churn_d2() { churn::<D<2>, 32>(4, 65, 64, 1, 2, &[3, 3], same) }
fn c01_churn_d3() { churn::<D<3>, 32>(4, 65, 4096, 2, 2, &[3, 3], same) }
fn c01_bulk_d2() { bulk::<D<2>>(300, 7, 13) }
fn c01_bulk_d3() { bulk::<D<3>>(300, 3, 873) }
fn c01t_bulk_d4() { bulk::<D<4>>(70000, 3, 1) }
}

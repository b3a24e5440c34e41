//! C04: key_values lists exactly the contents.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
type S<L> = SparseTree<L, u64>;

fn any<T: Tree>(kinds: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    kv_exact(&t, &m);
    cover(1);
}
/// a write through key_values_mut is what get returns afterwards
fn write<T: Tree>(kinds: &[u64]) {
    let mut t = T::new();
    let mut m = Log::<16>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    {
        let (k, v) = t.kvm();
        check!(k.len() == v.len());
        check!(k.len() as u64 == m.live());
        let mut i = 0;
        while i < k.len() {
            check!((v[i] != 0) & (v[i] == m.get(k[i])));
            v[i] = 500 + i as u64;
            m.set(k[i], 500 + i as u64);
            i += 1;
        }
    }
    same(&t, &m);
    kv_exact(&t, &m);
    cover(1);
}
fn filled<T: Tree>(n: usize, base: usize, stride: usize, kinds: &[u64], sh: u32, w: u32) {
    let mut t = T::new();
    let mut m = Log::<80>::new();
    fill(&mut t, &mut m, n, base, stride);
    history(&mut t, &mut m, kinds, || near(base, sh, w));
    kv_exact(&t, &m);
    cover(1);
}
harnesses! {
fn c04_empty_dense() { any::<D<3>>(&[]) }
fn c04_empty_sparse() { any::<S3>(&[]) }
fn c04_any3_dense_d1() { any::<D<1>>(&[3, 3, 3]) }
fn c04_any3_dense_d2() { any::<D<2>>(&[3, 3, 3]) }
fn c04_iir_dense_d3() { any::<D<3>>(&[INS, INS, REM]) }
fn c04_iiirr_dense_d1() { any::<D<1>>(&[INS, INS, INS, REM, REM]) }
fn c04_iir_dense_d5() { any::<D<5>>(&[INS, INS, REM]) }
fn c04_any2_dense_d9() { any::<D<9>>(&[3, 3]) }
fn c04_any4_w64_d1() { any::<S1>(&[3, 3, 3, 3]) }
fn c04_any3_w64_d2() { any::<S2>(&[3, 3, 3]) }
fn c04_iiirr_w64_d2() { any::<S2>(&[INS, INS, INS, REM, REM]) }
fn c04_any3_w64_d3() { any::<S3>(&[3, 3, 3]) }
fn c04_any2_w64_d8() { any::<S<w64::depth_8>>(&[3, 3]) }
fn c04_any3_w128_d2() { any::<S128_2>(&[3, 3, 3]) }
fn c04_any2_w128_d8() { any::<S<w128::depth_8>>(&[3, 3]) }
fn c04_any3_w256_d2() { any::<S256_2>(&[3, 3, 3]) }
fn c04_any2_w256_d8() { any::<S<w256::depth_8>>(&[3, 3]) }
fn c04_write_dense_d2() { write::<D<2>>(&[INS, INS, REM]) }
fn c04_write_dense_d1() { write::<D<1>>(&[3, 3, 3]) }
fn c04_write_w64_d2() { write::<S2>(&[3, 3, 3]) }
fn c04_write_w256_d1() { write::<S256_1>(&[3, 3, 3]) }
fn c04_filled_dense() { filled::<D<2>>(9, 60, 1, &[3], 0, 4) }
fn c04_filled_w64() { filled::<S2>(9, 60, 1, &[3, REM], 0, 4) }
fn c04t_any4_w64_d2() { any::<S2>(&[3, 3, 3, 3]) }
fn c04t_any3_dense_d3() { any::<D<3>>(&[3, 3, 3]) }
fn c04t_any3_w64_d8() { any::<S<w64::depth_8>>(&[3, 3, 3]) }
fn c04t_any3_w256_d4() { any::<S<w256::depth_4>>(&[3, 3, 3]) }
fn c04_grid_dense_d3() { grid::<D<3>, 16>(&[0, 6, 12], true, &[3, 3], kv_exact) }
fn c04_grid_dense_d5() { grid::<D<5>, 32>(&[0, 6, 12, 24], false, &[3, 3], kv_exact) }
fn c04_grid_w64_d3() { grid::<S3, 16>(&[0, 6, 12], true, &[3, 3], kv_exact) }
fn c04_grid_w64_d5() { grid::<S<w64::depth_5>, 32>(&[0, 6, 12, 24], false, &[3, 3], kv_exact) }
fn c04_grid_w128_d3() { grid::<S<w128::depth_3>, 16>(&[0, 7, 14], false, &[3, 3], kv_exact) }
fn c04_grid_w256_d3() { grid::<S<w256::depth_3>, 16>(&[0, 8, 16], false, &[3, 3], kv_exact) }
fn c04_churn_dense_d2() { churn::<D<2>, 32>(4, 65, 64, 2, 2, &[3, 3], kv_exact) }
fn c04_churn_w64_d2() { churn::<S2, 32>(4, 65, 64, 2, 2, &[3, 3], kv_exact) }
}

//! C20: completely full nodes, in every configuration.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
type S<L> = SparseTree<L, u64>;

fn val(k: usize) -> u64 { (k as u64).wrapping_mul(2) | 1 }
/// order of insertion: 0 ascending, 1 descending, 2 scattered, 3 outside in
fn at(how: u64, i: usize, n: usize) -> usize {
    match how { 0 => i, 1 => n - 1 - i, 2 => (i * 37 + 11) & (n - 1), _ => if i & 1 == 0 { i / 2 } else { n - 1 - i / 2 } }
}
/// n (power of two) elements base + i << sh
fn put<T: Tree>(t: &mut T, how: u64, n: usize, base: usize, sh: u32) {
    let mut i = 0;
    while i < n { let k = base + (at(how, i, n) << sh); t.ins(k, val(k)); i += 1; }
}
fn take<T: Tree>(t: &mut T, how: u64, n: usize, base: usize, sh: u32) {
    let mut i = 0;
    while i < n { let k = base + (at(how, i, n) << sh); check!(t.rem(k) == val(k)); i += 1; }
}
/// every child of a node of some level, inserted in 4 orders; each is found, then any one removed and another looked at
fn full<T: Tree>(sh: u32, base: usize) {
    let n = 1usize << T::LB;
    let mut t = T::new();
    // (removing any child of a DenseTree node makes a path per child)
    let how = if T::KIND == 0 { conc(below(2)) * 2 } else { conc(below(4)) };
    put(&mut t, how, n, base, sh);
    let q = base + (key(T::LB) << sh);
    check!(t.gt(q) == val(q));
    // any one away: only that
    let d = key(T::LB);
    let r = base + ((if T::KIND == 0 { conc(d as u64) as usize } else { d }) << sh);
    check!(t.rem(r) == val(r));
    let q = base + (key(T::LB) << sh);
    check!(t.gt(q) == ite(q == r, 0, val(q)));
    // and in again
    t.ins(r, val(r) + 2);
    let q = base + (key(T::LB) << sh);
    check!(t.gt(q) == ite(q == r, val(r) + 2, val(q)));
    cover(1);
}
/// the same for an upper level
fn full_up<T: Tree>(sh: u32, base: usize) {
    let n = 1usize << T::LB;
    let mut t = T::new();
    let how = conc(below(4));
    put(&mut t, how, n, base, sh);
    let d = if T::LB < 8 { conc(bits(T::LB)) as usize } else { [0, 1, 63, 64, 127, 128, 200, 255][conc(below(8)) as usize] };
    let r = base + (d << sh);
    let q = base + ((d ^ ((1 << conc(below(T::LB as u64))) * bits(1) as usize)) << sh);
    if flag() { check!(t.rem(r) == val(r)); check!(t.gt(q) == ite(q == r, 0, val(q))); t.ins(r, val(r) + 2); }
    else { let k = r ^ (1 << (sh - 1)); t.ins(k, 8); check!(t.gt(r) == val(r)); check!(t.rem(r) == val(r)); t.ins(r, val(r) + 2); check!(t.gt(k) == 8); }
    check!(t.gt(q) == ite(q == r, val(r) + 2, val(q)));
    cover(1);
}
/// full, emptied, full again; emptied again
fn refill<T: Tree>(sh: u32, base: usize, empty: bool) {
    let n = 1usize << T::LB;
    let mut t = T::new();
    let how = conc(below(4));
    put(&mut t, how, n, base, sh);
    take(&mut t, (how + 2) & 3, n, base, sh);
    let q = base + (key(T::LB) << sh);
    check!(t.gt(q) == 0);
    put(&mut t, (how + 1) & 3, n, base, sh);
    let q = base + (key(T::LB) << sh);
    check!(t.gt(q) == val(q));
    if empty { take(&mut t, how ^ 1, n, base, sh); let q = tkey::<T>(); check!(t.gt(q) == 0); }
    cover(1);
}
/// two digits full: 4096 elements or more under one node
fn two<T: Tree>(hi: u32, lo: u32, base: usize) {
    let w = 1usize << T::LB;
    let mut t = T::new();
    let mut i = 0;
    while i < w { put(&mut t, (i & 3) as u64, w, base + (at(3, i, w) << hi), lo); i += 1; }
    let q = base + (key(T::LB) << hi) + (key(T::LB) << lo);
    check!(t.gt(q) == val(q));
    cover(1);
}
/// every index of a whole tree (or of its first n)
fn whole<T: Tree>(n: usize, how: u64, q: usize) {
    let mut t = T::new();
    put(&mut t, how, n, 0, 0);
    check!(t.gt(q) == ite(q < n, val(q), 0));
    cover(1);
}
harnesses! {
fn c20_full_d1() { full::<D<1>>(0, 0) }
fn c20_full_d2() { full::<D<2>>(0, 63 << 6) }
fn c20t_full_d3() { full::<D<3>>(0, 63 << 12) }
fn c20_full_s1() { full::<S1>(0, 0) }
fn c20_full_s2() { full::<S2>(0, 63 << 6) }
fn c20_full_s3() { full::<S3>(0, 63 << 12) }
fn c20_full_s128_1() { full::<S128_1>(0, 0) }
fn c20_full_s128_2() { full::<S128_2>(0, 127 << 7) }
fn c20_full_s256_1() { full::<S256_1>(0, 0) }
fn c20_full_s256_2() { full::<S256_2>(0, 255 << 8) }
fn c20_up_d2() { full_up::<D<2>>(6, 5) }
fn c20_up_d3() { full_up::<D<3>>(12, 5) }
fn c20_up_s2() { full_up::<S2>(6, 63) }
fn c20_up_s3() { full_up::<S3>(6, 0) }
fn c20_up_s128_2() { full_up::<S128_2>(7, 5) }
fn c20_up_s256_2() { full_up::<S256_2>(8, 255) }
fn c20_refill_d1() { refill::<D<1>>(0, 0, true) }
fn c20_refill_d2() { refill::<D<2>>(6, 1, true) }
fn c20_refill_d3() { refill::<D<3>>(6, 1 << 12, true) }
fn c20_refill_s1() { refill::<S1>(0, 0, true) }
fn c20_refill_s2() { refill::<S2>(6, 7, true) }
fn c20_refill_s4() { refill::<S4>(12, 7, true) }
fn c20_refill_s128_1() { refill::<S128_1>(0, 0, true) }
fn c20_refill_s128_3() { refill::<S<w128::depth_3>>(14, 9, true) }
fn c20_refill_s256_1() { refill::<S256_1>(0, 0, true) }
fn c20_refill_s256_2() { refill::<S256_2>(8, 0, true) }
fn c20_whole_d2() { whole::<D<2>>(4096, 0, key(12)) }
fn c20_whole_d2_scattered() { whole::<D<2>>(4096, 2, key(12)) }
fn c20_whole_s2() { whole::<S2>(4096, 0, key(12)) }
fn c20_whole_s2_scattered() { whole::<S2>(4096, 2, key(12)) }
fn c20_whole_s128_2() { whole::<S128_2>(16384, 1, key(14)) }
fn c20_whole_s256_2() { whole::<S256_2>(65536, 0, (conc(below(2)) as usize * 255) << 8 | key(8)) }
fn c20_whole_s3() { whole::<S3>(262144, 0, (conc(below(2)) as usize * 4095) << 6 | key(6)) }
fn c20t_whole_s3() { whole::<S3>(262144, 0, key(18)) }
fn c20t_whole_s256_2() { whole::<S256_2>(65536, 1, key(16)) }
fn c20t_whole_d3() { whole::<D<3>>(262144, 0, key(18)) }
fn c20t_s256_3() { whole::<S<w256::depth_3>>(262144, 0, (conc(below(2)) as usize * 3) << 16 | (conc(below(2)) as usize * 255) << 8 | key(8)) }
fn c20_two_d3() { two::<D<3>>(12, 0, 63 << 6) }
fn c20_two_s3() { two::<S3>(12, 0, 63 << 6) }
fn c20t_two_d4() { two::<D<4>>(18, 6, 63) }
fn c20_two_s128_3() { two::<S<w128::depth_3>>(14, 0, 127 << 7) }
fn c20t_two_s256_3() { two::<S<w256::depth_3>>(16, 8, 0) }
}

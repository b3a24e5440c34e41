//! C25: the same results when CPU features select other code (compiled with these features, for
//! the engine and for the native replays).
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_iter};
use crate::mt::*;
use crate::model::{self, Log, Tree, TreeH, D as Dn, S1, S2, S3, S4, S128_1, S128_2, S256_1, S256_2, INS, REM, GOI};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
type S<L> = SparseTree<L, u64>;
/// the build has the features it is to be checked with
#[inline(always)] fn featured() { check!(cfg!(all(target_feature = "bmi2", target_feature = "popcnt", target_feature = "avx2"))); }
fn any<T: Tree>(kinds: &[u64]) {
    featured();
    let mut t = T::new();
    let mut m = Log::<8>::new();
    model::history(&mut t, &mut m, kinds, || model::tkey::<T>());
    model::same(&t, &m);
    model::kv_exact(&t, &m);
    cover(1);
}
fn boundary<T: Tree>(n: usize, base: usize, stride: usize, kinds: &[u64], sh: u32, w: u32) {
    featured();
    let mut t = T::new();
    let mut m = Log::<140>::new();
    model::fill(&mut t, &mut m, n, base, stride);
    model::history(&mut t, &mut m, kinds, || model::near(base, sh, w));
    model::same(&t, &m);
    cover(1);
}
fn iter<T: Tree>(kinds: &[u64], base: usize, sh: u32, w: u32) {
    featured();
    let mut t = T::new();
    let mut m = Log::<8>::new();
    model::history(&mut t, &mut m, kinds, || model::near(base, sh, w));
    model::iter_exact(&t, &m);
    cover(1);
}
/// node masks on the way to any index
fn masks<T: TreeH>(kinds: &[u64]) {
    featured();
    let mut t = T::new();
    let mut m = Log::<8>::new();
    model::history(&mut t, &mut m, kinds, || model::tkey::<T>());
    let q = model::tkey::<T>();
    let mut n = 0;
    while n < model::depth::<T>() {
        let mut c = cur(&t);
        let mask = model::walk::<T, ConstUsize<0>>(&t, &mut c, ConstUsize, q, n, 0);
        let g = model::digit::<T>(q, n);
        check!(mbit(&mask, g) == m.any_under(model::under::<T>(n), (q >> model::under::<T>(n)) as u64));
        n += 1;
    }
    cover(1);
}
/// a whole node, any child
fn full<T: Tree>(sh: u32, base: usize) {
    featured();
    let n = 1usize << T::LB;
    let mut t = T::new();
    let mut i = 0;
    while i < n { let j = (i * 37 + 11) & (n - 1); t.ins(base + (j << sh), j as u64 + 1); i += 1; }
    let r = key(T::LB);
    check!(t.gt(base + (r << sh)) == r as u64 + 1);
    let r = if T::LB < 7 { conc(r as u64) as usize } else { [0, 1, 63, 64, 100, 127, 128, 255][conc(below(8)) as usize] & (n - 1) };
    check!(t.rem(base + (r << sh)) == r as u64 + 1);
    let q = key(T::LB);
    check!(t.gt(base + (q << sh)) == ite(q == r, 0, q as u64 + 1));
    cover(1);
}
macro_rules! lazy { ($M:ty, $D:literal, $X:literal) => {{
    featured();
    let q = paths::<$M, $D, 1>();
    let a: [MT<$M, $D, 1, $X>; 3] = std::array::from_fn(|i| MT::new(i as u64, q));
    let v = |p: usize| -> [u64; 3] { std::array::from_fn(|i| a[i].want(p)) };
    let k = |p: usize, l: usize| -> [$M; 3] { std::array::from_fn(|i| a[i].mask(p, l)) };
    match conc(below(4)) {
        0 => { let t = intersection(&a[0], &a[1]); mt_get!(t, enc, q[0], both(v(0)[0], v(0)[1], pair(v(0)[0], v(0)[1]))); mt_cursor!(t, enc, q, |p, l| mand(&k(p, l)[0], &k(p, l)[1]), |p: usize| both(v(p)[0], v(p)[1], pair(v(p)[0], v(p)[1]))) }
        1 => { let t = union(&a[0], &a[1]); mt_get!(t, enc, q[0], either(v(0)[0], v(0)[1], pair(v(0)[0], v(0)[1]))); mt_cursor!(t, enc, q, |p, l| mor(&k(p, l)[0], &k(p, l)[1]), |p: usize| either(v(p)[0], v(p)[1], pair(v(p)[0], v(p)[1]))) }
        2 => { let t = multi_union(a.iter()); mt_get!(t, seq, q[0], mu(v(0))); mt_cursor!(t, seq, q, |p, l| mor(&mor(&k(p, l)[0], &k(p, l)[1]), &k(p, l)[2]), |p: usize| mu(v(p))) }
        _ => { let t = multi_intersection(a.iter()); mt_get!(t, seq, q[0], mi(v(0))); mt_cursor!(t, seq, q, |p, l| mand(&mand(&k(p, l)[0], &k(p, l)[1]), &k(p, l)[2]), |p: usize| mi(v(p))) }
    }
    cover(1);
}} }
fn mi<const N: usize>(v: [u64; N]) -> u64 { let (mut a, mut all) = (1, N > 0); for v in v { a = then(a, v); all &= v != 0; } ite(all, a | 1, 0) }
fn mu<const N: usize>(v: [u64; N]) -> u64 { let (mut a, mut n) = (1, false); for v in v { a = ite(v != 0, then(a, v), a); n |= v != 0; } ite(n, a | 1, 0) }
macro_rules! few { ($M:ty, $D:literal, $X:literal) => {{
    featured();
    let (q, c) = two::<$M, $D>();
    let a: [MT<$M, $D, 2, $X>; 2] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    let v = |k: usize| -> [u64; 2] { std::array::from_fn(|i| a[i].at(k)) };
    match conc(below(4)) {
        0 => { let t = intersection(&a[0], &a[1]); mt_iter!(t, enc, q, |k| both(v(k)[0], v(k)[1], pair(v(k)[0], v(k)[1]))) }
        1 => { let t = union(&a[0], &a[1]); mt_iter!(t, enc, q, |k| either(v(k)[0], v(k)[1], pair(v(k)[0], v(k)[1]))) }
        2 => { let t = multi_union(a.iter()); mt_iter!(t, seq, q, |k| mu(v(k))) }
        _ => { let t = multi_intersection(a.iter()); mt_iter!(t, seq, q, |k| mi(v(k))) }
    }
    cover(1);
}} }
/// materialized intersection of containers
fn material<const N: usize>() where ConstUsize<N>: ConstInteger, DenseTree<u64, N>: Tree {
    featured();
    let w = 6 * N as u32;
    let k = [0; 3].map(|_| key(w));
    let mut a = DenseTree::<u64, N>::default();
    let mut b = DenseTree::<u64, N>::default();
    a.insert(k[0], 11); a.insert(k[1], 12); b.insert(k[1], 21); b.insert(k[2], 22);
    let t: DenseTree<u64, N> = map(union(&a, &b), |x: (Option<&u64>, Option<&u64>)| pair(x.0.enc(), x.1.enc())).materialize();
    let q = key(w);
    let (x, y) = (model::v0(a.get(q)), model::v0(b.get(q)));
    check!(model::v0(t.get(q)) == either(x, y, pair(x, y)));
    let mut p = 0;
    let mut n = 0;
    for (k, _) in HibitTree::iter(&t) { check!((n == 0) | (k > p)); p = k; n += 1; }
    check!(n == t.key_values().0.len());
    cover(1);
}
/// every block, every bit
macro_rules! block { ($M:ty) => {{
    featured();
    let a = msym::<$M>();
    let i = key(lb::<$M>());
    let mut b = a.clone();
    let old = b.set_bit::<true>(i);
    check!(old == mbit(&a, i) && mbit(&b, i) && a.get_bit(i) == old);
    let j = key(lb::<$M>());
    check!(mbit(&b, j) == (mbit(&a, j) | (i == j)));
    let mut z = b.clone();
    z.set_bit::<false>(i);
    check!(mbit(&z, j) == (mbit(&a, j) & (i != j)));
    check!(a.is_zero() == mzero(&a));
    check!((a == b) == meq(&a, &b));
    let mut x = a.clone(); x &= z.clone(); check!(meq(&x, &mand(&a, &z)));
    let mut x = a.clone(); x |= b.clone(); check!(meq(&x, &mor(&a, &b)));
    cover(1);
}} }
fn zeroes<M: BitBlock>() {
    featured();
    let (i, j) = (conc(bits(M::SIZE.ilog2())) as usize, key(M::SIZE.ilog2()));
    let mut m = M::zero();
    m.set_bit::<true>(i);
    m.set_bit::<true>(j);
    check!(m.count_ones() as u64 == ite(i == j, 1, 2));
    cover(1);
}
harnesses! {
fn c25_any3_d1() { any::<Dn<1>>(&[3, 3, 3]) }
fn c25_any3_d2() { any::<Dn<2>>(&[3, 3, 3]) }
fn c25_iirr_d2() { any::<Dn<2>>(&[INS, INS, REM, REM]) }
fn c25_iir_d3() { any::<Dn<3>>(&[INS, INS, REM]) }
fn c25_any2_d5() { any::<Dn<5>>(&[3, 3]) }
fn c25_any2_d9() { any::<Dn<9>>(&[3, 3]) }
fn c25_b31_d2() { boundary::<Dn<2>>(31, 64, 2, &[3], 0, 6) }
fn c25_b63_d2() { boundary::<Dn<2>>(63, 64, 1, &[3], 0, 6) }
fn c25t_b31_up_d2() { boundary::<Dn<2>>(31, 5, 64, &[3], 6, 6) }
fn c25_any3_w64_1() { any::<S1>(&[3, 3, 3]) }
fn c25_any3_w64_2() { any::<S2>(&[3, 3, 3]) }
fn c25_any2_w64_8() { any::<S<w64::depth_8>>(&[3, 3]) }
fn c25_any3_w128_1() { any::<S128_1>(&[3, 3, 3]) }
fn c25_any2_w128_2() { any::<S128_2>(&[3, 3]) }
fn c25_any2_w128_5() { any::<S<w128::depth_5>>(&[3, 3]) }
fn c25_any2_w256_1() { any::<S256_1>(&[3, 3]) }
fn c25_any2_w256_2() { any::<S256_2>(&[3, 3]) }
fn c25_any2_w256_8() { any::<S<w256::depth_8>>(&[3, 3]) }
fn c25_iter_d1() { iter::<Dn<1>>(&[3, 3, 3], 0, 0, 6) }
fn c25_iter_d2() { iter::<Dn<2>>(&[INS, INS], 0, 0, 12) }
fn c25_iter_d4() { iter::<Dn<4>>(&[INS, INS], 0, 0, 24) }
fn c25_iter_w64_2() { iter::<S2>(&[INS, INS, REM], 0, 0, 12) }
fn c25_iter_w128_1() { iter::<S128_1>(&[INS, INS], 0, 0, 7) }
fn c25_iter_w256_1() { iter::<S256_1>(&[INS, INS], 0, 0, 8) }
fn c25_masks_d1() { masks::<Dn<1>>(&[3, 3]) }
fn c25_masks_d3() { masks::<Dn<3>>(&[3, 3]) }
fn c25_masks_w64_2() { masks::<S2>(&[3, 3]) }
fn c25_masks_w128_2() { masks::<S128_2>(&[3, 3]) }
fn c25_masks_w256_2() { masks::<S256_2>(&[3, 3]) }
fn c25_full_d1() { full::<Dn<1>>(0, 0) }
fn c25t_full_d2() { full::<Dn<2>>(0, 63 << 6) }
fn c25_full_s1() { full::<S1>(0, 0) }
fn c25_full_s128() { full::<S128_1>(0, 0) }
fn c25_full_s256() { full::<S256_1>(0, 0) }
fn c25_lazy_m64_d1() { lazy!(M64, 1, true) }
fn c25_lazy_m64_d2() { lazy!(M64, 2, false) }
fn c25_lazy_m128_d1() { lazy!(M128, 1, true) }
fn c25_lazy_m128_d2() { lazy!(M128, 2, false) }
fn c25_lazy_m256_d1() { lazy!(M256, 1, true) }
fn c25_lazy_m256_d2() { lazy!(M256, 2, true) }
fn c25_few_m64_d1() { few!(M64, 1, true) }
fn c25_few_m64_d2() { few!(M64, 2, false) }
fn c25_few_m128_d1() { few!(M128, 1, true) }
fn c25t_few_m256_d1() { few!(M256, 1, true) }
fn c25_material_d1() { material::<1>() }
fn c25_material_d2() { material::<2>() }
fn c25_block64() { block!(M64) }
fn c25_block128() { block!(M128) }
fn c25_block256() { block!(M256) }
fn c25_count64() { zeroes::<M64>() }
fn c25_count128() { zeroes::<M128>() }
fn c25_count256() { zeroes::<M256>() }
}

//! C14: cursors can be moved about freely.
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_move, mt_hop, mt_iter};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S3, S4, S128_1, S128_2, S256_1, S256_2};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::Borrowable;
use std::cell::Cell;
use crate::model::{Log, history, walk, near, digit, under, depth, bit_at, INS, REM, TreeH, fill, tkey};
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};

fn fold(inter: bool, v: impl Iterator<Item = u64>) -> u64 {
    let (mut a, mut n, mut all) = (1, 0u64, true);
    for v in v { a = ite(v != 0, then(a, v), a); n += ite(v != 0, 1, 0); all &= v != 0; }
    ite(if inter { all & (n > 0) } else { n > 0 }, a | 1, 0)
}
fn masks<M: BitBlock>(inter: bool, m: impl Iterator<Item = M>) -> M {
    let (mut r, mut first) = (M::zero(), true);
    for m in m { r = if first { m } else if inter { mand(&r, &m) } else { mor(&r, &m) }; first = false; }
    r
}
fn eo(v: u64) -> u64 { v | 1 }
fn op<M: BitBlock, const D: usize, const X: bool>(o: u64) where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 2>();
    let (a, b) = (MT::<M, D, 2, X>::new(0, q), MT::<M, D, 2, false>::new(1, q));
    match o {
        0 => { let t = intersection(&a, &b);
               mt_move!(t, enc, q, |p: usize, l: usize| mand(&a.mask(p, l), &b.mask(p, l)), |p: usize| both(a.want(p), b.want(p), pair(a.want(p), b.want(p)))); }
        1 => { let t = union(&a, &b);
               mt_move!(t, enc, q, |p: usize, l: usize| mor(&a.mask(p, l), &b.mask(p, l)), |p: usize| either(a.want(p), b.want(p), pair(a.want(p), b.want(p)))); }
        _ => { let t = map(&a, |v: u64| v << 1 | 1);
               mt_move!(t, enc, q, |p: usize, l: usize| a.mask(p, l), |p: usize| ite(a.want(p) != 0, a.want(p) << 1 | 1, 0)); }
    }
    cover(1);
}
fn multi<M: BitBlock, const D: usize, const X: bool, const T: usize>(o: u64) where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 2>();
    let a: [MT<M, D, 2, X>; T] = std::array::from_fn(|i| MT::new(i as u64, q));
    let want = |p: usize| fold(o & 1 == 0, a.iter().map(|a| a.want(p)));
    let mask = |p: usize, l: usize| masks(o & 1 == 0, a.iter().map(|a| a.mask(p, l)));
    match o {
        0 => { let t = multi_intersection(a.iter()); mt_move!(t, seq, q, mask, want); }
        1 => { let t = multi_union(a.iter()); mt_move!(t, seq, q, mask, want); }
        2 => { let t = multi_intersection(a.iter()).map_fold(|| 1, |x: u64, v: u64| then(x, v)); mt_move!(t, eo, q, mask, want); }
        _ => { let t = multi_union(a.iter()).map_fold(|| 1, |x: u64, v: u64| then(x, v)); mt_move!(t, eo, q, mask, want); }
    }
    cover(1);
}
/// one path, then another
fn hop<M: BitBlock, const D: usize, const X: bool, const T: usize>(o: u64) where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 2>();
    let a: [MT<M, D, 2, X>; T] = std::array::from_fn(|i| MT::new(i as u64, q));
    let i = o & 1 == 0;
    let want = |p: usize| fold(i, a.iter().map(|a| a.want(p)));
    let mask = |p: usize, l: usize| masks(i, a.iter().map(|a| a.mask(p, l)));
    match o {
        0 => { let t = multi_intersection(a.iter()); mt_hop!(t, seq, q, mask, want); }
        1 => { let t = multi_union(a.iter()); mt_hop!(t, seq, q, mask, want); }
        2 => { let t = multi_intersection(a.iter()).map_fold(|| 1, |x: u64, v: u64| then(x, v)); mt_hop!(t, eo, q, mask, want); }
        3 => { let t = multi_union(a.iter()).map_fold(|| 1, |x: u64, v: u64| then(x, v)); mt_hop!(t, eo, q, mask, want); }
        4 => { let t = intersection(&a[0], &a[1]); mt_hop!(t, enc, q, mask, |p: usize| both(a[0].want(p), a[1].want(p), pair(a[0].want(p), a[1].want(p)))); }
        5 => { let t = union(&a[0], &a[1]); mt_hop!(t, enc, q, mask, |p: usize| either(a[0].want(p), a[1].want(p), pair(a[0].want(p), a[1].want(p)))); }
        6 => { let t = union(intersection(&a[0], &a[1]), &a[1]); mt_hop!(t, enc, q, |p: usize, l: usize| a[1].mask(p, l), |p: usize| { let (x, y) = (a[0].want(p), a[1].want(p)); let b = both(x, y, pair(x, y)); either(b, y, pair(b, y)) }); }
        _ => { let t = intersection(union(&a[0], &a[1]), &a[1]); mt_hop!(t, enc, q, |p: usize, l: usize| a[1].mask(p, l), |p: usize| { let (x, y) = (a[0].want(p), a[1].want(p)); let b = either(x, y, pair(x, y)); both(b, y, pair(b, y)) }); }
    }
    cover(1);
}
/// nodes from level `from` on; a bit of each mask, chosen symbolically, is compared
fn rsteps<'a, T: TreeH, N: ConstInteger, const L: usize>(t: &'a T, c: &mut <T as HibitTreeTypes<'a>>::Cursor, n: N, q: usize, from: usize, upto: usize, unch: u64, m: &Log<L>) {
    let d = depth::<T>();
    if N::VALUE >= from {
        let i = if N::VALUE == 0 { 0 } else { digit::<T>(q, N::VALUE - 1) };
        let un = unch >> N::VALUE & 1 == 1 && (N::VALUE == 0 || { let sh = under::<T>(N::VALUE - 1); m.any_under(sh, (q >> sh) as u64) });
        let mask = unsafe { if un { c.select_level_node_unchecked(t, n, i) } else { c.select_level_node(t, n, i) } };
        let sh = under::<T>(N::VALUE);
        let b = if N::VALUE + 1 == d { key(T::LB) } else { digit::<T>(q, N::VALUE) };
        let p = (q >> sh) & !(<T as HibitTree>::LevelMask::SIZE - 1) | b;
        check!(bit_at(&mask, b) == m.any_under(sh, p as u64));
    }
    if N::VALUE == upto || N::VALUE + 1 >= d { return; }
    rsteps::<T, N::Inc, L>(t, c, n.inc(), q, from, upto, unch, m)
}
macro_rules! rdata { ($t:expr, $c:expr, $q:expr, $m:expr) => {{
    let (w, i) = ($m.get($q), low(&$t, $q));
    match unsafe { $c.data(&$t, i) } { Some(d) => check!(*d == w), None => check!(w == 0) }
    if w != 0 { check!(*unsafe { $c.data_unchecked(&$t, i) } == w); }
}} }
/// the cursor of a container, along two symbolic paths
macro_rules! rmove { ($($T:ty)? | $kinds:expr, $kw:expr, $sh:expr, $base:expr, $un:expr) => {{ $(
    let mut t = <$T>::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, $kinds, || $base ^ (key($kw) << $sh));
    let d = depth::<$T>();
    let mut c = cur(&t);
    let q0 = $base ^ (key($kw) << $sh);
    let q1 = $base ^ (key($kw) << $sh);
    let un: [u64; 3] = $un;
    let u0 = un[conc(below(3)) as usize];
    let upto = conc(below(d as u64)) as usize;
    rsteps::<$T, ConstUsize<0>, 8>(&t, &mut c, ConstUsize::<0>, q0, 0, upto, u0, &m);
    if upto + 1 == d { rdata!(t, c, q0, m); }
    let from = conc(below(upto as u64 + 2)) as usize;
    if from < d {
        if from > 0 { let s = lbt(&t) * (d - (from - 1)); if s < 64 { assume(q0 >> s == q1 >> s); } }
        rsteps::<$T, ConstUsize<0>, 8>(&t, &mut c, ConstUsize::<0>, q1, from, 99, u0, &m);
        rdata!(t, c, q1, m);
    }
    cover(1);
)? }} }
const UN: [u64; 3] = [0, 0x1ff, 0x155];
harnesses! {
fn c14_inter_m64_d1() { op::<M64, 1, true>(0) }
fn c14_inter_m64_d2() { op::<M64, 2, false>(0) }
fn c14_inter_m64_d3() { op::<M64, 3, true>(0) }
fn c14_inter_m128_d2() { op::<M128, 2, false>(0) }
fn c14_inter_m256_d2() { op::<M256, 2, false>(0) }
fn c14_union_m64_d1() { op::<M64, 1, true>(1) }
fn c14_union_m64_d2() { op::<M64, 2, false>(1) }
fn c14_union_m64_d3() { op::<M64, 3, true>(1) }
fn c14_union_m128_d2() { op::<M128, 2, false>(1) }
fn c14_union_m256_d2() { op::<M256, 2, false>(1) }
fn c14_map_m64_d1() { op::<M64, 1, true>(2) }
fn c14_map_m64_d2() { op::<M64, 2, false>(2) }
fn c14_map_m64_d3() { op::<M64, 3, true>(2) }
fn c14_map_m128_d2() { op::<M128, 2, false>(2) }
fn c14_map_m256_d2() { op::<M256, 2, false>(2) }
fn c14_minter_m64_d1_n2() { multi::<M64, 1, true, 2>(0) }
fn c14_minter_m64_d2_n1() { multi::<M64, 2, false, 1>(0) }
fn c14_minter_m64_d2_n2() { multi::<M64, 2, false, 2>(0) }
fn c14_minter_m64_d3_n2() { multi::<M64, 3, true, 2>(0) }
fn c14_minter_m128_d2_n2() { multi::<M128, 2, false, 2>(0) }
fn c14_munion_m64_d1_n2() { multi::<M64, 1, true, 2>(1) }
fn c14_munion_m64_d2_n1() { multi::<M64, 2, false, 1>(1) }
fn c14_munion_m64_d2_n2() { multi::<M64, 2, false, 2>(1) }
fn c14t_munion_m64_d3_n2() { multi::<M64, 3, true, 2>(1) }
fn c14_munion_m128_d2_n2() { multi::<M128, 2, false, 2>(1) }
fn c14_foldi_m64_d2_n2() { multi::<M64, 2, false, 2>(2) }
fn c14_foldu_m64_d2_n2() { multi::<M64, 2, false, 2>(3) }
fn c14_hop_minter_m64_d3_n2() { hop::<M64, 3, false, 2>(0) }
fn c14t_hop_minter_m64_d3_n3() { hop::<M64, 3, true, 3>(0) }
fn c14t_hop_minter_m64_d4_n2() { hop::<M64, 4, false, 2>(0) }
fn c14t_hop_minter_m64_d5_n2() { hop::<M64, 5, true, 2>(0) }
fn c14_hop_minter_m128_d3_n2() { hop::<M128, 3, false, 2>(0) }
fn c14t_hop_minter_m256_d3_n2() { hop::<M256, 3, false, 2>(0) }
fn c14_hop_munion_m64_d3_n2() { hop::<M64, 3, false, 2>(1) }
fn c14t_hop_munion_m64_d3_n3() { hop::<M64, 3, true, 3>(1) }
fn c14t_hop_munion_m64_d4_n2() { hop::<M64, 4, false, 2>(1) }
fn c14t_hop_munion_m64_d5_n2() { hop::<M64, 5, true, 2>(1) }
fn c14t_hop_munion_m128_d3_n2() { hop::<M128, 3, false, 2>(1) }
fn c14t_hop_munion_m256_d3_n2() { hop::<M256, 3, false, 2>(1) }
fn c14_hop_foldi_m64_d3_n2() { hop::<M64, 3, false, 2>(2) }
fn c14t_hop_foldi_m64_d4_n2() { hop::<M64, 4, false, 2>(2) }
fn c14t_hop_foldi_m64_d5_n2() { hop::<M64, 5, true, 2>(2) }
fn c14_hop_foldi_m128_d3_n2() { hop::<M128, 3, false, 2>(2) }
fn c14t_hop_foldi_m256_d3_n2() { hop::<M256, 3, false, 2>(2) }
fn c14_hop_foldu_m64_d3_n2() { hop::<M64, 3, false, 2>(3) }
fn c14t_hop_foldu_m64_d4_n2() { hop::<M64, 4, false, 2>(3) }
fn c14t_hop_foldu_m64_d5_n2() { hop::<M64, 5, true, 2>(3) }
fn c14t_hop_foldu_m128_d3_n2() { hop::<M128, 3, false, 2>(3) }
fn c14t_hop_foldu_m256_d3_n2() { hop::<M256, 3, false, 2>(3) }
fn c14_hop_inter_m64_d3_n2() { hop::<M64, 3, false, 2>(4) }
fn c14t_hop_inter_m64_d4_n2() { hop::<M64, 4, false, 2>(4) }
fn c14t_hop_inter_m64_d5_n2() { hop::<M64, 5, true, 2>(4) }
fn c14_hop_inter_m128_d3_n2() { hop::<M128, 3, false, 2>(4) }
fn c14t_hop_inter_m256_d3_n2() { hop::<M256, 3, false, 2>(4) }
fn c14_hop_union_m64_d3_n2() { hop::<M64, 3, false, 2>(5) }
fn c14t_hop_union_m64_d4_n2() { hop::<M64, 4, false, 2>(5) }
fn c14t_hop_union_m64_d5_n2() { hop::<M64, 5, true, 2>(5) }
fn c14_hop_union_m128_d3_n2() { hop::<M128, 3, false, 2>(5) }
fn c14t_hop_union_m256_d3_n2() { hop::<M256, 3, false, 2>(5) }
fn c14_hop_u_i_m64_d3_n2() { hop::<M64, 3, false, 2>(6) }
fn c14t_hop_u_i_m64_d4_n2() { hop::<M64, 4, false, 2>(6) }
fn c14t_hop_u_i_m64_d5_n2() { hop::<M64, 5, true, 2>(6) }
fn c14_hop_u_i_m128_d3_n2() { hop::<M128, 3, false, 2>(6) }
fn c14t_hop_u_i_m256_d3_n2() { hop::<M256, 3, false, 2>(6) }
fn c14_hop_i_u_m64_d3_n2() { hop::<M64, 3, false, 2>(7) }
fn c14t_hop_i_u_m64_d4_n2() { hop::<M64, 4, false, 2>(7) }
fn c14t_hop_i_u_m64_d5_n2() { hop::<M64, 5, true, 2>(7) }
fn c14_hop_i_u_m128_d3_n2() { hop::<M128, 3, false, 2>(7) }
fn c14t_hop_i_u_m256_d3_n2() { hop::<M256, 3, false, 2>(7) }
fn c14_dense_d1() { rmove!(Dn<1> | &[3, INS], 6, 0, 0, UN) }
fn c14_dense_d2() { rmove!(Dn<2> | &[INS, INS], 12, 0, 0, UN) }
fn c14_dense_d3() { rmove!(Dn<3> | &[INS, INS], 18, 0, 0, UN) }
fn c14_dense_empty() { rmove!(Dn<3> | &[], 18, 0, 0, UN) }
fn c14_w64_d1() { rmove!(S1 | &[3, INS], 6, 0, 0, UN) }
fn c14_w64_d2() { rmove!(S2 | &[INS, INS, REM], 12, 0, 0, UN) }
fn c14_w64_d3() { rmove!(S3 | &[INS, INS], 18, 0, 0, UN) }
fn c14_w64_d4() { rmove!(S4 | &[INS, INS], 24, 0, 0, UN) }
fn c14_w64_empty() { rmove!(S3 | &[], 18, 0, 0, UN) }
fn c14_w128_d2() { rmove!(S128_2 | &[INS, INS], 14, 0, 0, UN) }
fn c14_w256_d2() { rmove!(S256_2 | &[INS, INS], 16, 0, 0, UN) }
}

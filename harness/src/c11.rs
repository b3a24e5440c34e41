//! C11: multi_map_fold.
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_move, mt_iter};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S3, S4, S128_1, S128_2, S256_1, S256_2};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::Borrowable;
use std::cell::Cell;

fn one(v: u64) -> u64 { v | 1 }
/// (contained, folded value, number of values)
fn fold(inter: bool, v: impl Iterator<Item = u64>) -> (bool, u64, u64) {
    let (mut a, mut n, mut all) = (1, 0u64, true);
    for v in v { a = ite(v != 0, then(a, v), a); n += ite(v != 0, 1, 0); all &= v != 0; }
    (if inter { all & (n > 0) } else { n > 0 }, a, n)
}
fn masks<M: BitBlock>(inter: bool, m: impl Iterator<Item = M>) -> M {
    let (mut r, mut first) = (M::zero(), true);
    for m in m { r = if first { m } else if inter { mand(&r, &m) } else { mor(&r, &m) }; first = false; }
    r
}
macro_rules! any { ($get:ident, $cursor:ident, $few:ident, $op:ident, $inter:expr) => {
fn $get<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    if lb::<M>() as usize * D == 64 { assume(q[0] != usize::MAX); }
    let a = many::<M, D, 1, X, T>(q, $inter);
    let (ni, nf) = (Cell::new(0u64), Cell::new(0u64));
    let (has, w, n) = fold($inter, a.iter().map(|a| a.want(0)));
    let t = multi_map_fold($op(a.iter()), || { ni.set(ni.get() + 1); 1u64 }, |x: u64, v: u64| { nf.set(nf.get() + 1); then(x, v) });
    match t.get(q[0]) {
        Some(d) => { check!(has); check!(d == w); check!(ni.get() == 1); check!(nf.get() == n) }
        None => { check!(!has); check!(ni.get() == 0); check!(nf.get() == 0) }
    }
    if has {
        ni.set(0); nf.set(0);
        check!(unsafe { t.get_unchecked(q[0]) } == w);
        check!(ni.get() == 1); check!(nf.get() == n);
    }
    cover(1);
}
fn $cursor<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let a = many::<M, D, 1, X, T>(q, $inter);
    let (ni, nf) = (Cell::new(0u64), Cell::new(0u64));
    let want = |p: usize| { let (h, w, _) = fold($inter, a.iter().map(|a| a.want(p))); ite(h, w | 1, 0) };
    let mask = |p: usize, l: usize| masks($inter, a.iter().map(|a| a.mask(p, l)));
    let t = $op(a.iter()).map_fold(|| { ni.set(ni.get() + 1); 1u64 }, |x: u64, v: u64| { nf.set(nf.get() + 1); then(x, v) });
    mt_cursor!(t, eo, q, mask, want);
    let (h, _, n) = fold($inter, a.iter().map(|a| a.want(0)));
    check!(ni.get() == ite(h, 2, 0));
    check!(nf.get() == ite(h, 2 * n, 0));
    cover(1);
}
fn $few<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let a: [MT<M, D, 2, X>; T] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    let ni = Cell::new(0u64);
    let t = multi_map_fold($op(a.iter()), || { ni.set(ni.get() + 1); 1u64 }, |x: u64, v: u64| then(x, v));
    let at = |k: usize| { let (h, w, _) = fold($inter, a.iter().map(|a| a.at(k))); ite(h, w | 1, 0) };
    mt_iter!(t, eo, q, &at);
    check!(ni.get() == count(&q, &at));
    cover(1);
}
} }
fn eo(v: u64) -> u64 { v | 1 }
any!(get_u, cursor_u, few_u, multi_union, false);
any!(get_i, cursor_i, few_i, multi_intersection, true);
/// real containers; items of another type than the values
fn real<A: Tree + HibitTree + Borrowable<Borrowed = A>>(w: u32, sh: u32, base: usize)
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, A: RegularHibitTree {
    let mut a = [A::new(), A::new()];
    let k: [usize; 3] = std::array::from_fn(|_| base ^ (key(w) << sh));
    a[0].ins(k[0], 11); a[0].ins(k[1], 12);
    a[1].ins(k[1], 21); a[1].ins(k[2], 22);
    let w = |i: bool, k: usize| { let (h, w, n) = fold(i, a.iter().map(|a| a.gt(k))); ite(h, pair(w, n), 0) };
    if conc(bits(1)) == 0 {
        let t = multi_map_fold(multi_union(a.iter()), || (1u64, 0u64), |x: (u64, u64), v: &u64| (then(x.0, *v), x.1 + 1));
        mt_iter!(t, enc, k, |k| w(false, k));
    } else {
        let t = multi_map_fold(multi_intersection(a.iter()), || (1u64, 0u64), |x: (u64, u64), v: &u64| (then(x.0, *v), x.1 + 1));
        mt_iter!(t, enc, k, |k| w(true, k));
    }
}
/// a tree given several times
fn same<M: BitBlock, const D: usize, const X: bool>(inter: bool) where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let (a, b) = (MT::<M, D, 2, X>::of(0, q, c), MT::<M, D, 2, X>::of(1, q, c));
    let pick = conc(below(3));
    let all = [&a, &b, &a];
    let few = if pick == 0 { &all[..2] } else if pick == 1 { &all[..] } else { &[&a, &a][..] };
    let at = |k: usize| { let (h, w, _) = fold(inter, few.iter().map(|a| a.at(k))); ite(h, w | 1, 0) };
    let mask = |p: usize, l: usize| masks(inter, few.iter().map(|a| a.mask(p, l)));
    if inter { let t = multi_map_fold(multi_intersection(few.iter().copied()), || 1u64, |x: u64, v: u64| then(x, v));
    match conc(below(3)) {
        0 => mt_get!(t, eo, q[0], at(q[0])),
        1 => mt_cursor!(t, eo, q, mask, |p: usize| at(q[p])),
        _ => mt_iter!(t, eo, q, at),
    }
    } else { let t = multi_map_fold(multi_union(few.iter().copied()), || 1u64, |x: u64, v: u64| then(x, v));
    match conc(below(3)) {
        0 => mt_get!(t, eo, q[0], at(q[0])),
        1 => mt_cursor!(t, eo, q, mask, |p: usize| at(q[p])),
        _ => mt_iter!(t, eo, q, at),
    }
    }
    cover(1);
}
/// many trees that all have both nodes, one after the other
fn crowded<M: BitBlock, const D: usize, const X: bool, const T: usize>(inter: bool) where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let a = crowd::<M, D, X, T>(q, c);
    let at = |k: usize| { let (h, w, _) = fold(inter, a.iter().map(|a| a.at(k))); ite(h, w | 1, 0) };
    if inter { let t = multi_map_fold(multi_intersection(a.iter()), || 1u64, |x: u64, v: u64| then(x, v)); mt_iter!(t, eo, q, at); }
    else { let t = multi_map_fold(multi_union(a.iter()), || 1u64, |x: u64, v: u64| then(x, v)); mt_iter!(t, eo, q, at); }
    cover(1);
}
harnesses! {
fn c11_crowdi_m64_d1_n32() { crowded::<M64, 1, true, 32>(true) }
fn c11_crowdi_m64_d2_n32() { crowded::<M64, 2, true, 32>(true) }
fn c11_crowdi_m64_d2_n31() { crowded::<M64, 2, false, 31>(true) }
fn c11t_crowdi_m64_d3_n32() { crowded::<M64, 3, false, 32>(true) }
fn c11_crowdu_m64_d1_n32() { crowded::<M64, 1, true, 32>(false) }
fn c11_crowdu_m64_d2_n32() { crowded::<M64, 2, true, 32>(false) }
fn c11_crowdu_m64_d2_n31() { crowded::<M64, 2, false, 31>(false) }
fn c11t_crowdu_m64_d3_n32() { crowded::<M64, 3, false, 32>(false) }
fn c11_samei_m64_d1() { same::<M64, 1, true>(true) }
fn c11_sameu_m64_d1() { same::<M64, 1, true>(false) }
fn c11_samei_m64_d2() { same::<M64, 2, false>(true) }
fn c11_sameu_m64_d2() { same::<M64, 2, false>(false) }
fn c11_samei_m64_d3() { same::<M64, 3, true>(true) }
fn c11_sameu_m64_d3() { same::<M64, 3, true>(false) }
fn c11t_samei_m128_d2() { same::<M128, 2, true>(true) }
fn c11t_sameu_m128_d2() { same::<M128, 2, true>(false) }
fn c11t_samei_m256_d2() { same::<M256, 2, false>(true) }
fn c11t_sameu_m256_d2() { same::<M256, 2, false>(false) }
fn c11_get_u_m64_d1_n0() { get_u::<M64, 1, true, 0>() }
fn c11_get_u_m64_d1_n3() { get_u::<M64, 1, false, 3>() }
fn c11_get_u_m64_d2_n1() { get_u::<M64, 2, true, 1>() }
fn c11_get_u_m64_d3_n2() { get_u::<M64, 3, false, 2>() }
fn c11_get_u_m128_d2_n2() { get_u::<M128, 2, true, 2>() }
fn c11_get_u_m256_d2_n2() { get_u::<M256, 2, true, 2>() }
fn c11_cursor_u_m64_d1_n0() { cursor_u::<M64, 1, true, 0>() }
fn c11_cursor_u_m64_d1_n3() { cursor_u::<M64, 1, true, 3>() }
fn c11_cursor_u_m64_d2_n1() { cursor_u::<M64, 2, true, 1>() }
fn c11_cursor_u_m64_d2_n3() { cursor_u::<M64, 2, false, 3>() }
fn c11_cursor_u_m64_d3_n2() { cursor_u::<M64, 3, true, 2>() }
fn c11_cursor_u_m128_d2_n2() { cursor_u::<M128, 2, true, 2>() }
fn c11_cursor_u_m256_d2_n2() { cursor_u::<M256, 2, false, 2>() }
fn c11_few_u_m64_d1_n0() { few_u::<M64, 1, true, 0>() }
fn c11_few_u_m64_d1_n2() { few_u::<M64, 1, true, 2>() }
fn c11_few_u_m64_d2_n2() { few_u::<M64, 2, false, 2>() }
fn c11_few_u_m64_d2_n3() { few_u::<M64, 2, true, 3>() }
fn c11_few_u_m64_d3_n2() { few_u::<M64, 3, true, 2>() }
fn c11_few_u_m128_d1_n2() { few_u::<M128, 1, true, 2>() }
fn c11_get_i_m64_d1_n0() { get_i::<M64, 1, true, 0>() }
fn c11_get_i_m64_d1_n3() { get_i::<M64, 1, false, 3>() }
fn c11_get_i_m64_d2_n1() { get_i::<M64, 2, true, 1>() }
fn c11_get_i_m64_d3_n2() { get_i::<M64, 3, false, 2>() }
fn c11_get_i_m128_d2_n2() { get_i::<M128, 2, true, 2>() }
fn c11_get_i_m256_d2_n2() { get_i::<M256, 2, true, 2>() }
fn c11_cursor_i_m64_d1_n0() { cursor_i::<M64, 1, true, 0>() }
fn c11_cursor_i_m64_d1_n3() { cursor_i::<M64, 1, true, 3>() }
fn c11_cursor_i_m64_d2_n1() { cursor_i::<M64, 2, true, 1>() }
fn c11_cursor_i_m64_d2_n3() { cursor_i::<M64, 2, false, 3>() }
fn c11_cursor_i_m64_d3_n2() { cursor_i::<M64, 3, true, 2>() }
fn c11_cursor_i_m128_d2_n2() { cursor_i::<M128, 2, true, 2>() }
fn c11_cursor_i_m256_d2_n2() { cursor_i::<M256, 2, false, 2>() }
fn c11_few_i_m64_d1_n0() { few_i::<M64, 1, true, 0>() }
fn c11_few_i_m64_d1_n2() { few_i::<M64, 1, true, 2>() }
fn c11_few_i_m64_d2_n2() { few_i::<M64, 2, false, 2>() }
fn c11_few_i_m64_d2_n3() { few_i::<M64, 2, true, 3>() }
fn c11_few_i_m64_d3_n2() { few_i::<M64, 3, true, 2>() }
fn c11_few_i_m128_d1_n2() { few_i::<M128, 1, true, 2>() }
fn c11_real_d1() { real::<Dn<1>>(6, 0, 0) }
fn c11_real_d3() { real::<Dn<3>>(18, 0, 0) }
fn c11_real_s2() { real::<S2>(12, 0, 0) }
fn c11_real_s128() { real::<S128_2>(4, 6, 0x1040) }
fn c11_cursor_u_m64_d2_n8() { cursor_u::<M64, 2, true, 8>() }
fn c11_cursor_u_m64_d2_n32() { cursor_u::<M64, 2, true, 32>() }
fn c11_cursor_u_m64_d3_n31() { cursor_u::<M64, 3, false, 31>() }
fn c11_cursor_u_m64_d3_n32() { cursor_u::<M64, 3, true, 32>() }
fn c11_get_u_m64_d3_n32() { get_u::<M64, 3, false, 32>() }
fn c11_cursor_u_m256_d2_n32() { cursor_u::<M256, 2, true, 32>() }
fn c11_cursor_i_m64_d2_n8() { cursor_i::<M64, 2, true, 8>() }
fn c11_cursor_i_m64_d2_n32() { cursor_i::<M64, 2, true, 32>() }
fn c11_cursor_i_m64_d3_n31() { cursor_i::<M64, 3, false, 31>() }
fn c11_cursor_i_m64_d3_n32() { cursor_i::<M64, 3, true, 32>() }
fn c11_get_i_m64_d3_n32() { get_i::<M64, 3, false, 32>() }
fn c11_cursor_i_m256_d2_n32() { cursor_i::<M256, 2, true, 32>() }
}

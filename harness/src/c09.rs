//! C09: multi_intersection.
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_move, mt_hop, mt_iter};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S3, S128_1, S128_2, S256_1, S256_2};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::Borrowable;
use std::cell::Cell;
/// the values of the trees, in order; 0 if not contained
fn fold(v: impl Iterator<Item = u64>) -> u64 {
    let (mut a, mut n, mut all) = (1, 0u64, true);
    for v in v { a = then(a, v); all &= v != 0; n += 1; }
    ite(all & (n > 0), a | 1, 0)
}
fn masks<M: BitBlock>(m: impl Iterator<Item = M>) -> M {
    let (mut r, mut first) = (M::zero(), true);
    for m in m { r = if first { m } else { mand(&r, &m) }; first = false; }
    r
}

fn any_get<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    if lb::<M>() as usize * D == 64 { assume(q[0] != usize::MAX); }
    let a = many::<M, D, 1, X, T>(q, true);
    let t = multi_intersection(a.iter());
    mt_get!(t, seq, q[0], fold(a.iter().map(|a| a.want(0))));
    cover(1);
}
fn any_cursor<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let a = many::<M, D, 1, X, T>(q, true);
    let t = multi_intersection(a.iter());
    let want = |p: usize| fold(a.iter().map(|a| a.want(p)));
    let mask = |p: usize, l: usize| masks(a.iter().map(|a| a.mask(p, l)));
    mt_cursor!(t, seq, q, mask, want);
    cover(1);
}
fn few<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let a: [MT<M, D, 2, X>; T] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    let t = multi_intersection(a.iter());
    mt_iter!(t, seq, q, |k| fold(a.iter().map(|a| a.at(k))));
    cover(1);
}
/// three real containers
fn real<A: Tree + HibitTree + Borrowable<Borrowed = A>>(w: u32, sh: u32, base: usize)
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, A: RegularHibitTree {
    let mut a = [A::new(), A::new(), A::new()];
    let k: [usize; 3] = std::array::from_fn(|_| base ^ (key(w) << sh));
    a[0].ins(k[0], 11); a[0].ins(k[1], 12);
    a[1].ins(k[1], 21); a[1].ins(k[2], 22);
    a[2].ins(k[0], 31); a[2].ins(k[1], 32);
    if flag() { a[2].rem(k[0]); }
    let t = multi_intersection(a.iter());
    mt_iter!(t, seq, k, |k| fold(a.iter().map(|a| a.gt(k))));
    cover(1);
}
fn real_get<A: Tree + HibitTree + Borrowable<Borrowed = A>>()
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, A: RegularHibitTree {
    let mut a = [A::new(), A::new(), A::new()];
    let k: [usize; 3] = std::array::from_fn(|_| key(A::BITS));
    a[0].ins(k[0], 11); a[1].ins(k[1], 21); a[2].ins(k[2], 31); a[1].ins(k[0], 22);
    let q = key(A::BITS);
    let w = fold(a.iter().map(|a| a.gt(q)));
    // any clonable iterator over references will do
    match conc(below(3)) {
        0 => { let t = multi_intersection(a.iter()); mt_get!(t, seq, q, w) }
        1 => { let t = multi_intersection(a.iter().rev()); mt_get!(t, seq, q, fold(a.iter().rev().map(|a| a.gt(q)))) }
        _ => { let t = multi_intersection(a.iter().skip(1).chain(a.iter().take(1))); mt_get!(t, seq, q, fold(a.iter().skip(1).chain(a.iter().take(1)).map(|a| a.gt(q)))) }
    }
}
/// a tree given several times
fn same<M: BitBlock, const D: usize, const X: bool>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let (a, b) = (MT::<M, D, 2, X>::of(0, q, c), MT::<M, D, 2, X>::of(1, q, c));
    let pick = conc(below(3));
    let all = [&a, &b, &a];
    let few = if pick == 0 { &all[..2] } else if pick == 1 { &all[..] } else { &[&a, &a][..] };
    let at = |k: usize| fold(few.iter().map(|a| a.at(k)));
    let mask = |p: usize, l: usize| masks(few.iter().map(|a| a.mask(p, l)));
    let t = multi_intersection(few.iter().copied());
    match conc(below(3)) {
        0 => mt_get!(t, seq, q[0], at(q[0])),
        1 => mt_cursor!(t, seq, q, mask, |p: usize| at(q[p])),
        _ => mt_iter!(t, seq, q, at),
    }
    cover(1);
}
/// many trees that all have both nodes, one after the other
fn crowded<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let a = crowd::<M, D, X, T>(q, c);
    let t = multi_intersection(a.iter());
    mt_iter!(t, seq, q, |k| fold(a.iter().map(|a| a.at(k))));
    cover(1);
}
fn full_hop<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 2>();
    let a = many::<M, D, 2, X, T>(q, true);
    let t = multi_intersection(a.iter());
    let want = |p: usize| fold(a.iter().map(|a| a.want(p)));
    let mask = |p: usize, l: usize| masks(a.iter().map(|a| a.mask(p, l)));
    mt_hop!(t, seq, q, mask, want);
    cover(1);
}
harnesses! {
fn c09_crowd_m64_d1_n32() { crowded::<M64, 1, true, 32>() }
fn c09_crowd_m64_d2_n32() { crowded::<M64, 2, true, 32>() }
fn c09_crowd_m64_d2_n31() { crowded::<M64, 2, false, 31>() }
fn c09t_crowd_m64_d3_n32() { crowded::<M64, 3, false, 32>() }
fn c09t_crowd_m128_d2_n32() { crowded::<M128, 2, true, 32>() }
fn c09_full_hop_m64_d2_n32() { full_hop::<M64, 2, true, 32>() }
fn c09t_full_hop_m64_d3_n32() { full_hop::<M64, 3, true, 32>() }
fn c09_same_m64_d1() { same::<M64, 1, true>() }
fn c09_same_m64_d2() { same::<M64, 2, false>() }
fn c09_same_m64_d3() { same::<M64, 3, true>() }
fn c09t_same_m128_d2() { same::<M128, 2, true>() }
fn c09t_same_m256_d2() { same::<M256, 2, false>() }
fn c09_get_m64_d1_n0() { any_get::<M64, 1, true, 0>() }
fn c09_get_m64_d1_n1() { any_get::<M64, 1, true, 1>() }
fn c09_get_m64_d1_n2() { any_get::<M64, 1, false, 2>() }
fn c09_get_m64_d2_n0() { any_get::<M64, 2, true, 0>() }
fn c09_get_m64_d2_n1() { any_get::<M64, 2, true, 1>() }
fn c09_get_m64_d2_n2() { any_get::<M64, 2, false, 2>() }
fn c09_get_m64_d2_n3() { any_get::<M64, 2, true, 3>() }
fn c09_get_m64_d2_n5() { any_get::<M64, 2, false, 5>() }
fn c09_get_m64_d3_n3() { any_get::<M64, 3, true, 3>() }
fn c09_get_m64_d9_n2() { any_get::<M64, 9, false, 2>() }
fn c09_get_m128_d1_n2() { any_get::<M128, 1, true, 2>() }
fn c09_get_m128_d2_n3() { any_get::<M128, 2, false, 3>() }
fn c09_get_m128_d8_n2() { any_get::<M128, 8, true, 2>() }
fn c09_get_m256_d1_n2() { any_get::<M256, 1, true, 2>() }
fn c09_get_m256_d2_n3() { any_get::<M256, 2, false, 3>() }
fn c09_get_m256_d8_n2() { any_get::<M256, 8, true, 2>() }
fn c09_get_m64_d1_n32() { any_get::<M64, 1, true, 32>() }
fn c09_get_m64_d3_n32() { any_get::<M64, 3, true, 32>() }
fn c09_cursor_m64_d1_n0() { any_cursor::<M64, 1, true, 0>() }
fn c09_cursor_m64_d1_n1() { any_cursor::<M64, 1, true, 1>() }
fn c09_cursor_m64_d1_n2() { any_cursor::<M64, 1, false, 2>() }
fn c09_cursor_m64_d1_n3() { any_cursor::<M64, 1, true, 3>() }
fn c09_cursor_m64_d2_n0() { any_cursor::<M64, 2, true, 0>() }
fn c09_cursor_m64_d2_n1() { any_cursor::<M64, 2, true, 1>() }
fn c09_cursor_m64_d2_n2() { any_cursor::<M64, 2, false, 2>() }
fn c09_cursor_m64_d2_n3() { any_cursor::<M64, 2, true, 3>() }
fn c09_cursor_m64_d3_n0() { any_cursor::<M64, 3, false, 0>() }
fn c09_cursor_m64_d3_n2() { any_cursor::<M64, 3, true, 2>() }
fn c09_cursor_m64_d3_n3() { any_cursor::<M64, 3, false, 3>() }
fn c09_cursor_m64_d4_n3() { any_cursor::<M64, 4, true, 3>() }
fn c09_cursor_m64_d5_n2() { any_cursor::<M64, 5, false, 2>() }
fn c09_cursor_m64_d9_n2() { any_cursor::<M64, 9, true, 2>() }
fn c09_cursor_m128_d1_n2() { any_cursor::<M128, 1, true, 2>() }
fn c09_cursor_m128_d2_n3() { any_cursor::<M128, 2, false, 3>() }
fn c09_cursor_m128_d4_n2() { any_cursor::<M128, 4, true, 2>() }
fn c09_cursor_m256_d1_n2() { any_cursor::<M256, 1, true, 2>() }
fn c09_cursor_m256_d2_n2() { any_cursor::<M256, 2, false, 2>() }
fn c09_cursor_m256_d3_n2() { any_cursor::<M256, 3, true, 2>() }
fn c09_cursor_m64_d2_n4() { any_cursor::<M64, 2, true, 4>() }
fn c09_cursor_m64_d2_n8() { any_cursor::<M64, 2, false, 8>() }
fn c09_cursor_m64_d2_n9() { any_cursor::<M64, 2, true, 9>() }
fn c09_cursor_m64_d2_n16() { any_cursor::<M64, 2, true, 16>() }
fn c09_cursor_m64_d2_n31() { any_cursor::<M64, 2, true, 31>() }
fn c09_cursor_m64_d2_n32() { any_cursor::<M64, 2, true, 32>() }
fn c09_cursor_m64_d3_n32() { any_cursor::<M64, 3, false, 32>() }
fn c09_cursor_m256_d2_n32() { any_cursor::<M256, 2, true, 32>() }
fn c09_few_m64_d2_n4() { few::<M64, 2, true, 4>() }
fn c09_cursor_m64_d1_n32() { any_cursor::<M64, 1, true, 32>() }
fn c09_few_m64_d1_n0() { few::<M64, 1, true, 0>() }
fn c09_few_m64_d2_n0() { few::<M64, 2, true, 0>() }
fn c09_few_m64_d1_n1() { few::<M64, 1, true, 1>() }
fn c09_few_m64_d1_n3() { few::<M64, 1, true, 3>() }
fn c09_few_m64_d2_n1f() { few::<M64, 2, false, 1>() }
fn c09_few_m64_d2_n2() { few::<M64, 2, true, 2>() }
fn c09_few_m64_d2_n2f() { few::<M64, 2, false, 2>() }
fn c09_few_m64_d3_n2() { few::<M64, 3, true, 2>() }
fn c09_few_m64_d3_n2f() { few::<M64, 3, false, 2>() }
fn c09_few_m64_d2_n3() { few::<M64, 2, true, 3>() }
fn c09_few_m128_d1_n2() { few::<M128, 1, true, 2>() }
fn c09_few_m128_d2_n2() { few::<M128, 2, true, 2>() }
fn c09_real_d1() { real::<Dn<1>>(6, 0, 0) }
fn c09_real_d2() { real::<Dn<2>>(12, 0, 0) }
fn c09_real_s1() { real::<S1>(6, 0, 0) }
fn c09_real_s2() { real::<S2>(12, 0, 0) }
fn c09_real_s3() { real::<S3>(18, 0, 0) }
fn c09_real_s128() { real::<S128_2>(6, 6, 0x1040) }
fn c09_real_s256() { real::<S256_1>(5, 0, 0xc0) }
fn c09_get_d1() { real_get::<Dn<1>>() }
fn c09_get_d2() { real_get::<Dn<2>>() }
fn c09_get_s128() { real_get::<S128_2>() }
fn c09_get_s256() { real_get::<S256_2>() }
}

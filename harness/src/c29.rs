//! C29: iterators and cursors over one tree do not affect each other.
use crate::{check, harnesses};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S3, S128_2, S256_2, v0};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::LendingIterator;

/// what one iterator has yielded so far
struct Seen { k: [usize; 4], n: usize, end: bool }
impl Seen { fn new() -> Self { Seen { k: [0; 4], n: 0, end: false } } }
/// Two iterators over one tree. Each step moves one of them (and looks up an index); an item of
/// one is used only after the other one has moved.
macro_rules! iters { ($t:expr, $enc:path, $cands:expr, $at:expr, $moves:expr) => {{
    let at = $at;
    let (mut a, mut b) = ($t.iter(), $t.iter());
    let (mut s, mut r) = (Seen::new(), Seen::new());
    macro_rules! got { ($s:ident, $x:expr) => { match $x {
        Some((k, d)) => {
            check!(!$s.end);
            check!(($s.n == 0) || k > $s.k[$s.n - 1]);
            let w: u64 = at(k);
            check!(w != 0);
            check!($enc(d) == w);
            $s.k[$s.n] = k; $s.n += 1;
        }
        None => { if !$s.end { check!($s.n as u64 == count(&$cands, &at)); } $s.end = true }
    } } }
    let mut i = 0;
    while i < $moves {
        match conc(below(4)) {
            0 => got!(s, LendingIterator::next(&mut a)),
            1 => got!(r, LendingIterator::next(&mut b)),
            2 => { let x = LendingIterator::next(&mut a); let y = LendingIterator::next(&mut b); got!(s, x); got!(r, y) }
            _ => {
                let x = LendingIterator::next(&mut b);
                let q = $cands[0];
                let w: u64 = at(q);
                match $t.get(q) { Some(d) => { check!(w != 0); check!($enc(d) == w) } None => check!(w == 0) }
                got!(r, x);
            }
        }
        i += 1;
    }
    drop(a);
    while !r.end { got!(r, LendingIterator::next(&mut b)); }
    cover(r.n as u32 + 1);
}} }
/// Two cursors on two paths, moved level by level in any order.
macro_rules! pair { ($t:expr, $enc:path, $q:expr, $mask:expr, $want:expr) => {{
    let d = dep(&$t);
    let (mut a, mut b) = (cur(&$t), cur(&$t));
    let (mut i, mut j) = (0, 0);
    let un = if flag() { 0x1ff } else { 0 };
    while i < d || j < d {
        if i < d && (j == d || flag()) { steps(&$t, &mut a, ConstUsize::<0>, $q[0], i, i, un, &|l| $mask(0, l)); i += 1; }
        else { steps(&$t, &mut b, ConstUsize::<0>, $q[1], j, j, un, &|l| $mask(1, l)); j += 1; }
    }
    let (w, v): (u64, u64) = ($want(0), $want(1));
    let x = unsafe { a.data(&$t, low(&$t, $q[0])) };
    let y = unsafe { b.data(&$t, low(&$t, $q[1])) };
    let (xs, ys) = (x.is_some(), y.is_some());
    check!((xs == (w != 0)) & (ys == (v != 0)));
    match x { Some(d) => check!($enc(d) == w), None => () }
    match y { Some(d) => check!($enc(d) == v), None => () }
    drop(b);
    if w != 0 { let x = unsafe { a.data_unchecked(&$t, low(&$t, $q[0])) }; check!($enc(x) == w); cover(2); }
    cover(1);
}} }
fn fold(inter: bool, v: impl Iterator<Item = u64>) -> u64 {
    let (mut a, mut n, mut all) = (1, 0u64, true);
    for v in v { a = ite(v != 0, then(a, v), a); n += ite(v != 0, 1, 0); all &= v != 0; }
    ite(if inter { all & (n > 0) } else { n > 0 }, a | 1, 0)
}
fn masks<M: BitBlock>(inter: bool, m: impl Iterator<Item = M>) -> M {
    let (mut r, mut first) = (M::zero(), true);
    for m in m { r = if first { m } else if inter { mand(&r, &m) } else { mor(&r, &m) }; first = false; }
    r
}
fn odd(x: u64) -> u64 { x | 1 }
/// the operation is symbolic as well; $do is iters or pair
macro_rules! ops { ($how:expr, $do:ident, $a:ident, $q:ident $(, $moves:expr)?) => {{
    let at1 = |i: usize, k: usize| $a[i].at(k);
    let _ = &at1;
    macro_rules! go { ($t:expr, $enc:path, $at:expr, $mask:expr, $want:expr) => {{ let t = $t; ops!(@$do t, $enc, $q, $at, $mask, $want $(, $moves)?) }} }
    match $how {
        0 => go!(intersection(&$a[0], &$a[1]), enc, |k| both($a[0].at(k), $a[1].at(k), pair($a[0].at(k), $a[1].at(k))), |p, l| mand(&$a[0].mask(p, l), &$a[1].mask(p, l)), |p: usize| both($a[0].want(p), $a[1].want(p), pair($a[0].want(p), $a[1].want(p)))),
        1 => go!(union(&$a[0], &$a[1]), enc, |k| either($a[0].at(k), $a[1].at(k), pair($a[0].at(k), $a[1].at(k))), |p, l| mor(&$a[0].mask(p, l), &$a[1].mask(p, l)), |p: usize| either($a[0].want(p), $a[1].want(p), pair($a[0].want(p), $a[1].want(p)))),
        2 => go!(map(&$a[0], |v: u64| v << 1 | 1), enc, |k| { let v = $a[0].at(k); ite(v != 0, v << 1 | 1, 0) }, |p, l| $a[0].mask(p, l), |p: usize| { let v = $a[0].want(p); ite(v != 0, v << 1 | 1, 0) }),
        3 => go!(multi_intersection($a.iter()), seq, |k| fold(true, $a.iter().map(|a| a.at(k))), |p, l| masks(true, $a.iter().map(|a| a.mask(p, l))), |p: usize| fold(true, $a.iter().map(|a| a.want(p)))),
        4 => go!(multi_union($a.iter()), seq, |k| fold(false, $a.iter().map(|a| a.at(k))), |p, l| masks(false, $a.iter().map(|a| a.mask(p, l))), |p: usize| fold(false, $a.iter().map(|a| a.want(p)))),
        5 => go!(multi_map_fold(multi_union($a.iter()), || 1u64, |x: u64, v: u64| then(x, v)), odd, |k| fold(false, $a.iter().map(|a| a.at(k))), |p, l| masks(false, $a.iter().map(|a| a.mask(p, l))), |p: usize| fold(false, $a.iter().map(|a| a.want(p)))),
        _ => go!(multi_map_fold(multi_intersection($a.iter()), || 1u64, |x: u64, v: u64| then(x, v)), odd, |k| fold(true, $a.iter().map(|a| a.at(k))), |p, l| masks(true, $a.iter().map(|a| a.mask(p, l))), |p: usize| fold(true, $a.iter().map(|a| a.want(p)))),
    }
}};
(@iters $t:ident, $enc:path, $q:ident, $at:expr, $mask:expr, $want:expr, $moves:expr) => { iters!($t, $enc, $q, $at, $moves) };
(@pair $t:ident, $enc:path, $q:ident, $at:expr, $mask:expr, $want:expr) => { pair!($t, $enc, $q, $mask, $want) };
}
fn it<M: BitBlock, const D: usize, const X: bool>(how: u64, moves: usize) where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let a: [MT<M, D, 2, X>; 2] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    ops!(how, iters, a, q, moves)
}
fn cu<M: BitBlock, const D: usize, const X: bool>(how: u64) where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 2>();
    let a: [MT<M, D, 2, X>; 2] = std::array::from_fn(|i| MT::new(i as u64, q));
    ops!(how, pair, a, q)
}
/// containers; operations over one of them used at the same time
fn real<A: Tree + HibitTree + hibit_tree::utils::Borrowable<Borrowed = A>>(moves: usize)
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, A: RegularHibitTree {
    let (mut a, mut b) = (A::new(), A::new());
    let k: [usize; 2] = [tkey::<A>(), tkey::<A>()];
    a.ins(k[0], 11); a.ins(k[1], 12);
    b.ins(k[1], 21);
    match conc(below(3)) {
        0 => iters!(a, enc, k, |q| v0(a.get(q)), moves),
        1 => { let t = union(&a, &b); iters!(t, enc, k, |q| either(v0(a.get(q)), v0(b.get(q)), pair(v0(a.get(q)), v0(b.get(q)))), moves) }
        _ => {
            // two different operations over the same containers
            let (t, u) = (multi_union([&a, &b].into_iter()), intersection(&a, &b));
            let (mut i, mut j) = (t.iter(), u.iter());
            let x = LendingIterator::next(&mut i);
            let y = LendingIterator::next(&mut j);
            match x { Some((q, d)) => check!(seq(d) == fold(false, [v0(a.get(q)), v0(b.get(q))].into_iter())), None => check!(false) }
            match y { Some((q, d)) => check!((q == k[1]) & (enc(d) == pair(v0(a.get(q)), 21))), None => check!(false) }
            let n = (k[0] != k[1]) as u64;
            check!(LendingIterator::next(&mut j).is_none());
            check!(LendingIterator::next(&mut i).is_some() == (n != 0));
            check!(LendingIterator::next(&mut i).is_none());
            cover(1);
        }
    }
}
fn tkey<T: Tree>() -> usize { crate::model::tkey::<T>() }
harnesses! {
fn c29_it_inter_m64_d1() { it::<M64, 1, true>(0, 2) }
fn c29_it_union_m64_d1() { it::<M64, 1, true>(1, 2) }
fn c29_it_map_m64_d1() { it::<M64, 1, true>(2, 3) }
fn c29_it_minter_m64_d1() { it::<M64, 1, true>(3, 2) }
fn c29_it_munion_m64_d1() { it::<M64, 1, true>(4, 2) }
fn c29_it_foldu_m64_d1() { it::<M64, 1, true>(5, 2) }
fn c29_it_foldi_m64_d1() { it::<M64, 1, true>(6, 2) }
fn c29_it_inter_m64_d2() { it::<M64, 2, true>(0, 2) }
fn c29_it_union_m64_d2() { it::<M64, 2, true>(1, 2) }
fn c29_it_map_m64_d2() { it::<M64, 2, false>(2, 2) }
fn c29_it_minter_m64_d2() { it::<M64, 2, true>(3, 2) }
fn c29_it_munion_m64_d2() { it::<M64, 2, true>(4, 2) }
fn c29_it_foldu_m64_d2() { it::<M64, 2, true>(5, 1) }
fn c29_it_foldi_m64_d2() { it::<M64, 2, true>(6, 1) }
fn c29_it_munion_m128_d1() { it::<M128, 1, true>(4, 1) }
fn c29_it_minter_m256_d1() { it::<M256, 1, true>(3, 1) }
fn c29_cu_inter_m64_d1() { cu::<M64, 1, true>(0) }
fn c29_cu_union_m64_d1() { cu::<M64, 1, false>(1) }
fn c29_cu_minter_m64_d1() { cu::<M64, 1, true>(3) }
fn c29_cu_munion_m64_d1() { cu::<M64, 1, false>(4) }
fn c29_cu_inter_m64_d2() { cu::<M64, 2, true>(0) }
fn c29_cu_union_m64_d2() { cu::<M64, 2, true>(1) }
fn c29_cu_map_m64_d2() { cu::<M64, 2, false>(2) }
fn c29_cu_minter_m64_d2() { cu::<M64, 2, true>(3) }
fn c29_cu_munion_m64_d2() { cu::<M64, 2, true>(4) }
fn c29_cu_foldu_m64_d2() { cu::<M64, 2, true>(5) }
fn c29_cu_foldi_m64_d2() { cu::<M64, 2, true>(6) }
fn c29_cu_minter_m128_d2() { cu::<M128, 2, true>(3) }
fn c29_cu_munion_m128_d2() { cu::<M128, 2, true>(4) }
fn c29_cu_union_m256_d2() { cu::<M256, 2, true>(1) }
fn c29_cu_map_m64_d4() { cu::<M64, 4, true>(2) }
fn c29t_cu_inter_m64_d3() { cu::<M64, 3, true>(0) }
fn c29t_cu_union_m64_d3() { cu::<M64, 3, true>(1) }
fn c29t_cu_minter_m64_d3() { cu::<M64, 3, true>(3) }
fn c29t_cu_munion_m64_d3() { cu::<M64, 3, true>(4) }
fn c29t_it_union_m64_d3() { it::<M64, 3, true>(1, 2) }
fn c29t_it_munion_m64_d3() { it::<M64, 3, true>(4, 2) }
fn c29_real_dense_d1() { real::<Dn<1>>(2) }
fn c29_real_dense_d2() { real::<Dn<2>>(2) }
fn c29_real_w64_d1() { real::<S1>(2) }
fn c29_real_w64_d2() { real::<S2>(2) }
fn c29_real_w128_d2() { real::<S128_2>(1) }
fn c29t_real_w64_d3() { real::<S3>(2) }
fn c29t_real_w256_d2() { real::<S256_2>(2) }
}

//! C08: map.
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_move, mt_iter};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S3, S128_1, S128_2, S256_1, S256_2};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::Borrowable;
use std::cell::Cell;

fn fv(v: u64) -> u64 { v << 1 | 1 }
fn w0(v: u64) -> u64 { ite(v != 0, fv(v), 0) }
fn any_get<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    if lb::<M>() as usize * D == 64 { assume(q[0] != usize::MAX); }
    let n = Cell::new(0u64);
    let a = MT::<M, D, 1, false>::new(0, q);
    let w = w0(a.want(0));
    let t = map(&a, |v: u64| { n.set(n.get() + 1); check!(v == a.want(0)); fv(v) });
    match t.get(q[0]) { Some(d) => { check!(w != 0); check!(d == w); check!(n.get() == 1) } None => { check!(w == 0); check!(n.get() == 0) } }
    if w != 0 { n.set(0); check!(unsafe { t.get_unchecked(q[0]) } == w); check!(n.get() == 1); }
    cover(1);
}
fn any_cursor<M: BitBlock, const D: usize, const X: bool>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let n = Cell::new(0u64);
    let a = MT::<M, D, 1, X>::new(0, q);
    let want = |p: usize| w0(a.want(p));
    let mask = |p: usize, l: usize| a.mask(p, l);
    let t = map(&a, |v: u64| { n.set(n.get() + 1); check!(v == a.want(0)); fv(v) });
    check!(exact(&t) == X);
    mt_cursor!(t, enc, q, mask, want);
    check!(n.get() == ite(a.has(0), 2, 0));
}
fn few<M: BitBlock, const D: usize, const X: bool>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let n = Cell::new(0u64);
    let a = MT::<M, D, 2, X>::of(0, q, c);
    let t = map(&a, |v: u64| { n.set(n.get() + 1); fv(v) });
    mt_iter!(t, enc, q, |k| w0(a.at(k)));
    check!(n.get() == count(&q, &|k| a.at(k)));
}
/// map, s.map, s.map_ref on real containers, by value and by reference
fn real<A: Tree + HibitTree + Borrowable<Borrowed = A>>(w: u32, sh: u32, base: usize)
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, A: RegularHibitTree {
    let mut a = A::new();
    let k: [usize; 2] = std::array::from_fn(|_| base ^ (key(w) << sh));
    a.ins(k[0], 11); a.ins(k[1], 12);
    if flag() { a.rem(k[0]); }
    let q = base ^ (key(w) << sh);
    let wq = w0(a.gt(q));
    let n = Cell::new(0u64);
    let f = |v: &u64| { n.set(n.get() + 1); fv(*v) };
    match conc(below(5)) {
        0 => { let t = map(&a, &f); mt_iter!(t, enc, k, |k| w0(a.gt(k))); check!(n.get() == count(&k, &|k| a.gt(k))); }
        1 => { let t = map(&a, f); mt_get!(t, enc, q, wq); }
        2 => { let t = map(a, f); mt_get!(t, enc, q, wq); }
        3 => { let t = a.map_ref(f); mt_get!(t, enc, q, wq); }
        _ => { let t = a.map(f); mt_get!(t, enc, q, wq); }
    }
}
/// a map whose results borrow from the tree, and a map over a map
fn borrowed() {
    let mut a = S2::new();
    let k: [usize; 2] = std::array::from_fn(|_| key(12));
    a.ins(k[0], 11); a.ins(k[1], 12);
    let q = key(12);
    let t = map(map(&a, |v: &u64| v.wrapping_add(7)), |v: u64| v ^ 1);
    let w = |k: usize| ite(a.gt(k) != 0, (a.gt(k) + 7) ^ 1, 0);
    mt_get!(t, enc, q, w(q));
    mt_iter!(t, enc, k, |k| w(k));
}
fn exact<T: HibitTree>(_: &T) -> bool { T::EXACT_HIERARCHY }
harnesses! {
fn c08_get_m64_d1() { any_get::<M64, 1>() }
fn c08_get_m64_d2() { any_get::<M64, 2>() }
fn c08_get_m64_d3() { any_get::<M64, 3>() }
fn c08_get_m64_d5() { any_get::<M64, 5>() }
fn c08_get_m64_d9() { any_get::<M64, 9>() }
fn c08_get_m128_d1() { any_get::<M128, 1>() }
fn c08_get_m128_d2() { any_get::<M128, 2>() }
fn c08_get_m128_d4() { any_get::<M128, 4>() }
fn c08_get_m128_d8() { any_get::<M128, 8>() }
fn c08_get_m256_d1() { any_get::<M256, 1>() }
fn c08_get_m256_d2() { any_get::<M256, 2>() }
fn c08_get_m256_d4() { any_get::<M256, 4>() }
fn c08_get_m256_d8() { any_get::<M256, 8>() }
fn c08_cursor_m64_d1() { any_cursor::<M64, 1, false>() }
fn c08_cursor_m64_d2() { any_cursor::<M64, 2, true>() }
fn c08_cursor_m64_d3() { any_cursor::<M64, 3, false>() }
fn c08_cursor_m64_d5() { any_cursor::<M64, 5, false>() }
fn c08_cursor_m64_d9() { any_cursor::<M64, 9, false>() }
fn c08_cursor_m128_d1() { any_cursor::<M128, 1, false>() }
fn c08_cursor_m128_d2() { any_cursor::<M128, 2, true>() }
fn c08_cursor_m128_d4() { any_cursor::<M128, 4, true>() }
fn c08_cursor_m128_d8() { any_cursor::<M128, 8, true>() }
fn c08_cursor_m256_d1() { any_cursor::<M256, 1, false>() }
fn c08_cursor_m256_d2() { any_cursor::<M256, 2, true>() }
fn c08_cursor_m256_d4() { any_cursor::<M256, 4, true>() }
fn c08_cursor_m256_d8() { any_cursor::<M256, 8, true>() }
fn c08_few_m64_d1() { few::<M64, 1, true>() }
fn c08_few_m64_d2() { few::<M64, 2, false>() }
fn c08_few_exact_m64_d3() { few::<M64, 3, true>() }
fn c08_few_m64_d5() { few::<M64, 5, false>() }
fn c08_few_m128_d2() { few::<M128, 2, false>() }
fn c08t_few_m256_d2() { few::<M256, 2, false>() }
fn c08_real_d1() { real::<Dn<1>>(6, 0, 0) }
fn c08_real_d3() { real::<Dn<3>>(18, 0, 0) }
fn c08_real_s64() { real::<S2>(12, 0, 0) }
fn c08_real_s128() { real::<S128_2>(6, 6, 0x1040) }
fn c08_real_s256() { real::<S256_1>(6, 0, 0xc0) }
fn c08_map_of_map() { borrowed() }
}

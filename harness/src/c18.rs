//! C18: bit blocks behave as bit arrays.
use crate::{check, harnesses};
use crate::model::LM;
use crate::sym::*;
use hibit_tree::utils::Array;
use hibit_tree::*;
use std::ops::ControlFlow::{self, *};
type M64 = u64;
type M128 = LM<SparseTree<config::width_128::depth_1, u64>>;
type M256 = LM<SparseTree<config::width_256::depth_1, u64>>;

fn words<M: BitBlock>() -> [u64; 4] {
    let mut w = [0; 4];
    let mut i = 0;
    while i < M::SIZE / 64 { w[i] = bits(64); i += 1; }
    w
}
fn mk<M: BitBlock>(w: &[u64; 4]) -> M {
    let mut m = M::zero();
    let mut i = 0;
    while i < M::SIZE / 64 { m.as_array_mut().as_mut()[i] = w[i]; i += 1; }
    m
}
fn has(w: &[u64; 4], j: usize) -> bool { (ite(j >> 6 == 0, w[0], ite(j >> 6 == 1, w[1], ite(j >> 6 == 2, w[2], w[3]))) >> (j & 63)) & 1 == 1 }
fn idx<M: BitBlock>() -> usize { key(M::SIZE.trailing_zeros()) }
fn same<M: BitBlock>(m: &M, w: &[u64; 4]) {
    let a = m.as_array().as_ref();
    check!(a.len() == M::SIZE / 64);
    let mut i = 0;
    while i < M::SIZE / 64 { check!(a[i] == w[i]); i += 1; }
    let j = idx::<M>();
    check!(m.get_bit(j) == has(w, j));
}
fn set<M: BitBlock, const B: bool>() {
    let mut w = words::<M>();
    let mut m = mk::<M>(&w);
    same(&m, &w);
    let i = idx::<M>();
    check!(m.set_bit::<B>(i) == has(&w, i));
    let mut k = 0;
    while k < M::SIZE / 64 {
        let b = ite(i >> 6 == k, 1 << (i & 63), 0);
        w[k] = if B { w[k] | b } else { w[k] & !b };
        k += 1;
    }
    same(&m, &w);
    check!(m.get_bit(i) == B);
    cover(1);
}
fn ops<M: BitBlock>() {
    let (a, b) = (words::<M>(), words::<M>());
    let (x, y) = (mk::<M>(&a), mk::<M>(&b));
    let mut and = a;
    let mut or = a;
    let mut eq = true;
    let mut z = true;
    let mut ones = 0;
    let mut k = 0;
    while k < M::SIZE / 64 {
        and[k] = a[k] & b[k];
        or[k] = a[k] | b[k];
        eq = eq & (a[k] == b[k]);
        z = z & (a[k] == 0);
        ones += a[k].count_ones() as usize;
        k += 1;
    }
    same(&(x.clone() & y.clone()), &and);
    same(&(x.clone() | y.clone()), &or);
    let mut t = x.clone(); t &= y.clone(); same(&t, &and);
    let mut t = x.clone(); t |= y.clone(); same(&t, &or);
    let mut t = x.clone(); t &= &y; same(&t, &and);
    let mut t = x.clone(); t |= &y; same(&t, &or);
    check!((x == y) == eq);
    check!((x != y) == !eq);
    check!(x.is_zero() == z);
    check!(x.count_ones() == ones);
    check!(M::zero().is_zero());
    check!(!M::zero().get_bit(idx::<M>()));
    check!(M::zero().count_ones() == 0);
    same(&x, &a);
    same(&y, &b);
    check!(M::Array::CAP * 64 == M::SIZE);
    cover(1);
}
/// single bit blocks: all of the above agree with arithmetic on one index
fn one<M: BitBlock>() {
    let i = idx::<M>();
    let mut m = M::zero();
    check!(!m.set_bit::<true>(i));
    check!(!m.is_zero());
    check!(m.count_ones() == 1);
    let j = idx::<M>();
    check!(m.get_bit(j) == (i == j));
    let mut n = 0;
    check!(m.traverse_bits(|k| { check!(k == i); n += 1; Continue(()) }).is_continue());
    check!(n == 1);
    let mut it = m.clone().into_bits_iter();
    check!(it.next() == Some(i));
    check!(it.next().is_none());
    check!(m.set_bit::<false>(i));
    check!(m.is_zero());
    check!(m == M::zero());
    cover(1);
}
fn is_next(w: &[u64; 4], size: usize, f: usize, r: Option<usize>, j: usize) {
    match r {
        Some(i) => { check!((i < size) & (i >= f)); check!(has(w, i)); check!(imp_((j >= f) & has(w, j), j >= i)); }
        None => check!(!((j >= f) & has(w, j))),
    }
}
/// the first `k` bits of any block, in traverse_bits and into_bits_iter
fn first<M: BitBlock>(k: usize) {
    let w = words::<M>();
    let m = mk::<M>(&w);
    let j = idx::<M>();
    let mut f = 0;
    let mut calls = 0;
    let mut seq = [0; 8];
    let r = m.traverse_bits(|i| {
        is_next(&w, M::SIZE, f, Some(i), j);
        f = i + 1;
        seq[calls] = i;
        calls += 1;
        if calls == k { Break(()) } else { Continue(()) }
    });
    check!(r.is_break() == (calls == k));
    if calls < k { is_next(&w, M::SIZE, f, None, j); }
    let mut it = m.into_bits_iter();
    let mut n = 0;
    while n < calls { check!(it.next() == Some(seq[n])); n += 1; }
    if calls < k { check!(it.next().is_none()); }
    cover(1);
}
harnesses! {
fn c18_set_64() { set::<M64, true>() }
fn c18_set_128() { set::<M128, true>() }
fn c18_set_256() { set::<M256, true>() }
fn c18_clear_64() { set::<M64, false>() }
fn c18_clear_128() { set::<M128, false>() }
fn c18_clear_256() { set::<M256, false>() }
fn c18_ops_64() { ops::<M64>() }
fn c18_ops_128() { ops::<M128>() }
fn c18_ops_256() { ops::<M256>() }
fn c18_one_64() { one::<M64>() }
fn c18_one_128() { one::<M128>() }
fn c18_one_256() { one::<M256>() }
fn c18_first_64() { first::<M64>(3) }
fn c18_first_128() { first::<M128>(2) }
fn c18_first_256() { first::<M256>(2) }
fn c18t_first_64() { first::<M64>(5) }
fn c18t_first_128() { first::<M128>(3) }
fn c18t_first_256() { first::<M256>(3) }
}

//! C27: utility types are the values they wrap.
use crate::{check, harnesses};
use crate::sym::*;
use hibit_tree::const_utils::*;
use hibit_tree::utils::*;
use std::cell::Cell;

fn prim<P: Primitive>(w: u32) {
    let (x, y) = (bits(64), bits(64));
    let mask = if w == 64 { !0 } else { (1u64 << w) - 1 };
    let (p, r) = (P::from_usize(x as usize), P::from_usize(y as usize));
    let u = |p: P| p.as_usize() as u64;
    check!(u(p) == x & mask);
    check!(p.as_u8() == x as u8);
    check!(p.is_zero() == (x & mask == 0));
    check!(u(p.wrapping_neg()) == x.wrapping_neg() & mask);
    let tz = p.trailing_zeros();
    check!(tz <= w);
    check!((tz == w) == p.is_zero());
    if tz < w { check!(x >> tz & 1 == 1); check!(x & ((1u64 << tz) - 1) == 0); }
    check!((u(P::ZERO) == 0) & (u(P::ONE) == 1) & (u(P::MIN) == 0) & (u(P::MAX) == mask) & (u(P::default()) == 0));
    check!(((p & r).as_usize() as u64 == x & y & mask) & ((p | r).as_usize() as u64 == (x | y) & mask) & ((p ^ r).as_usize() as u64 == (x ^ y) & mask) & (u(!p) == !x & mask));
    let s = below(w as u64) as usize;
    check!(u(p << s) == (x << s) & mask);
    check!(u(p >> s) == (x & mask) >> s);
    check!((p == r) == (x & mask == y & mask));
    check!((p < r) == ((x & mask) < (y & mask)));
    cover(1);
}

/// counts what becomes of it
struct V<'a>(u64, &'a [Cell<u64>; 2]);
impl<'a> V<'a> { fn new(v: u64, c: &'a [Cell<u64>; 2]) -> Self { V(v, c) } }
impl<'a> Clone for V<'a> { fn clone(&self) -> Self { self.1[0].set(self.1[0].get() + 1); V(self.0, self.1) } }
impl<'a> Drop for V<'a> { fn drop(&mut self) { self.1[1].set(self.1[1].get() + 1); } }
fn count(c: &[Cell<u64>; 2]) -> (u64, u64) { (c[0].get(), c[1].get()) }
fn clean<'a, T: Take<V<'a>>>(t: T) -> V<'a> { t.take_or_clone() }
fn tried<'a, T: Take<V<'a>>>(t: T) -> Option<V<'a>> { t.try_take() }

fn take() {
    let x = bits(64);
    let c = Default::default();
    {
        let v = V::new(x, &c);
        let v: V = Take::<V>::take(v);
        check!((v.0 == x) & (count(&c) == (0, 0)));
        let v = match tried(v) { Some(v) => v, None => { check!(false); return } };
        check!((v.0 == x) & (count(&c) == (0, 0)));
        let v = clean(v);
        check!((v.0 == x) & (count(&c) == (0, 0)));
        check!(tried(&v).is_none());
        check!(count(&c) == (0, 0));
        { let k = clean(&v); check!((k.0 == x) & (count(&c) == (1, 0))); }
        check!((v.0 == x) & (count(&c) == (1, 1)));
    }
    check!(count(&c) == (1, 2));
    cover(1);
}

fn cond() {
    let (x, y) = (bits(64), bits(64));
    let c = Default::default();
    let d: [Cell<u64>; 2] = Default::default();
    {
        let calls = Cell::new(0u64);
        let mut a: CondType<ConstTrue, V, u64> = CondType::new(|| { calls.set(calls.get() + 1); V::new(x, &c) }, || { calls.set(100); y });
        let mut b: CondType<ConstFalse, u64, V> = CondType::new(|| { calls.set(100); y }, || { calls.set(calls.get() + 1); V::new(x, &d) });
        check!((calls.get() == 2) & (count(&c) == (0, 0)) & (count(&d) == (0, 0)));
        match a.get_mut() { Either::True(v) => { check!(v.0 == x); v.0 ^= y; } _ => check!(false) }
        match b.get_mut() { Either::False(v) => { check!(v.0 == x); v.0 ^= y; } _ => check!(false) }
        {
            let (e, f) = (a.clone(), b.clone());
            check!((count(&c) == (1, 0)) & (count(&d) == (1, 0)));
            match e.get() { Either::True(v) => check!(v.0 == x ^ y), _ => check!(false) }
            match f.get() { Either::False(v) => check!(v.0 == x ^ y), _ => check!(false) }
        }
        check!((count(&c) == (1, 1)) & (count(&d) == (1, 1)));
        check!((a.0.0 == x ^ y) & (b.0.0 == x ^ y));
    }
    check!((count(&c) == (1, 2)) & (count(&d) == (1, 2)));
    let a: CondType<ConstTrue, u64, V> = CondType::from(x);
    let b: CondType<ConstFalse, V, u64> = CondType::from(y);
    check!((a.0 == x) & (b.0 == y));
    let a: CondType<ConstTrue, u64, bool> = Default::default();
    let b: CondType<ConstFalse, bool, u64> = Default::default();
    check!((a.0 == 0) & (b.0 == 0));
    cover(1);
}

fn array<const N: usize>() {
    let x = bits(64);
    let c = Default::default();
    {
        let n = Cell::new(0);
        let mut a: [V; N] = Array::from_fn(|i| { check!(i == n.get()); n.set(i + 1); V::new(x.rotate_left(i as u32), &c) });
        check!((n.get() == N) & (<[V; N] as Array>::CAP == N) & (a.as_ref().len() == N) & (a.as_mut().len() == N));
        let mut i = 0;
        while i < N { check!(a.as_ref()[i].0 == x.rotate_left(i as u32)); i += 1; }
        check!(count(&c) == (0, 0));
        let mut u = <[V; N] as Array>::uninit_array();
        check!((AsMut::<[_]>::as_mut(&mut u).len() == N) & (<<[V; N] as Array>::UninitArray as Array>::CAP == N));
        let mut i = 0;
        while i < N { AsMut::<[_]>::as_mut(&mut u)[i].write(V::new(x ^ i as u64, &c)); i += 1; }
        fn w<'a>(_: &[V<'a>]) {}
        w(a.as_ref());
        std::mem::forget(u);
    }
    check!(count(&c) == (0, N as u64));
    cover(1);
}
fn functions() {
    let (x, y) = (bits(64), bits(64));
    let f0 = || x;
    let f1 = |a: u64| a.wrapping_mul(3) ^ y;
    let f2 = |a: u64, b: u32| a.rotate_left(7) ^ b as u64;
    check!(NullaryFunction::exec(&f0) == x);
    check!(UnaryFunction::exec(&f1, x) == x.wrapping_mul(3) ^ y);
    check!(BinaryFunction::exec(&f2, x, y as u32) == x.rotate_left(7) ^ (y as u32) as u64);
    let p: fn(u64) -> u64 = |a| !a;
    check!(UnaryFunction::exec(&p, x) == !x);
    // references and values of trees stand for the same tree
    let mut t: hibit_tree::DenseTree<u64, 2> = Default::default();
    let k = key(12);
    t.insert(k, x);
    fn at<T: Borrowable<Borrowed = hibit_tree::DenseTree<u64, 2>>>(t: T, k: usize) -> Option<u64> { hibit_tree::HibitTree::get(std::borrow::Borrow::<T::Borrowed>::borrow(&t), k).copied() }
    check!(at(&t, k) == Some(x));
    check!(at(t, k) == Some(x));
    cover(1);
}
harnesses! {
fn c27_prim_u8() { prim::<u8>(8) }
fn c27_prim_u16() { prim::<u16>(16) }
fn c27_prim_u32() { prim::<u32>(32) }
fn c27_prim_u64() { prim::<u64>(64) }
fn c27_prim_usize() { prim::<usize>(64) }
fn c27_take() { take() }
fn c27_cond() { cond() }
fn c27_array_0() { array::<0>() }
fn c27_array_1() { array::<1>() }
fn c27_array_4() { array::<4>() }
fn c27_array_9() { array::<9>() }
fn c27_functions() { functions() }
}

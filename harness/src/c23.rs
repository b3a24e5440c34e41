//! C23: compile-time loops, integers and arrays.
use crate::{check, harnesses};
use crate::sym::*;
use hibit_tree::const_utils::*;
use hibit_tree::utils::Array;
use std::ops::ControlFlow::{self, *};

struct V { seq: [usize; 16], n: usize, stop: usize, val: u64 }
impl ConstIntVisitor for &mut V {
    type Out = u64;
    fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<u64> {
        check!(i.value() == I::VALUE);
        check!(self.n < 16);
        self.seq[self.n] = I::VALUE;
        self.n += 1;
        if self.n == self.stop { Break(self.val) } else { Continue(()) }
    }
}
/// every break point (none included), any break value
fn range<A: ConstInteger, B: ConstInteger>(a: A, b: B, stop: usize, val: u64) {
    let (from, to) = (A::VALUE, B::VALUE);
    let len = if from < to { to - from } else { 0 };
    let mut v = V { seq: [99; 16], n: 0, stop, val };
    let r = const_for(a, b, &mut v);
    let want = if stop == 0 || stop > len { len } else { stop };
    check!(v.n == want);
    match r { Break(x) => { check!((stop != 0) & (stop <= len)); check!(x == val); } Continue(()) => check!((stop == 0) | (stop > len)) }
    let mut i = 0;
    while i < v.n { check!(v.seq[i] == from + i); i += 1; }
    let mut v = V { seq: [99; 16], n: 0, stop, val };
    let r = const_for_rev(a, b, &mut v);
    check!(v.n == want);
    match r { Break(x) => { check!((stop != 0) & (stop <= len)); check!(x == val); } Continue(()) => check!((stop == 0) | (stop > len)) }
    let mut i = 0;
    while i < v.n { check!(v.seq[i] == to - 1 - i); i += 1; }
}
macro_rules! froms { ($b:literal: $($a:literal)*) => { let stop = below(12) as usize; let val = bits(64); $( range(ConstUsize::<$a>, ConstUsize::<$b>, stop, val); )* cover(1); } }

fn int<A: ConstInteger>(a: A, v: usize) {
    check!(A::VALUE == v);
    check!(a.value() == v);
    check!(A::DEFAULT.value() == v);
    check!(A::default() == a);
    check!(<A::SatDec as ConstInteger>::VALUE == if v == 0 { 0 } else { v - 1 });
    check!(a.sat_dec().value() == if v == 0 { 0 } else { v - 1 });
    if v > 0 { check!(<A::Dec as ConstInteger>::VALUE == v - 1); check!(a.dec().value() == v - 1); }
    if v < 9 { check!(<A::Inc as ConstInteger>::VALUE == v + 1); check!(a.inc().value() == v + 1); }
    check!(<ConstArrayType<u64, A> as Array>::CAP == v);
    check!(<ConstCopyArrayType<u64, A> as Array>::CAP == v);
    let arr: ConstArrayType<u64, A> = Array::from_fn(|i| 10 + i as u64);
    check!(arr.as_ref().len() == v);
    let mut i = 0;
    while i < v { check!(arr.as_ref()[i] == 10 + i as u64); i += 1; }
}
/// the parts of split_last are the elements, each dropped exactly once
type Drops = [std::cell::Cell<u64>; 8];
struct Count<'a, P>(u64, usize, &'a Drops, P);
impl<'a, P> Drop for Count<'a, P> { fn drop(&mut self) { self.2[self.1].set(self.2[self.1].get() + 1); } }
fn split<const N: usize, P: Copy>(p: P, f: impl FnOnce([Count<P>; N], &[u64; 8], &Drops)) {
    let mut v = [0; 8];
    let mut i = 0;
    while i < 8 { v[i] = bits(64); i += 1; }
    let c = Drops::default();
    let a: [Count<P>; N] = std::array::from_fn(|i| Count(v[i], i, &c, p));
    f(a, &v, &c);
    let mut i = 0;
    while i < 8 { check!(c[i].get() == (i < N) as u64); i += 1; }
}
#[derive(Clone, Copy)] #[repr(align(128))] struct Al(#[allow(dead_code)] u8);
/// plain values of any layout; zero-sized ones have no identity but their number
macro_rules! plain { ($p:expr; $($n:literal)*) => { $( {
    let mut v = [0; 8];
    let mut i = 0;
    while i < 8 { v[i] = bits(64); i += 1; }
    let a: [_; $n] = std::array::from_fn(|i| $p(v[i]));
    let (l, r) = a.split_last();
    check!(r == $p(v[$n - 1]));
    check!(l.as_ref().len() == $n - 1);
    let mut i = 0;
    while i < $n - 1 { check!(l.as_ref()[i] == $p(v[i])); i += 1; }
} )* cover(1); } }
macro_rules! splits { ($p:expr; $($n:literal)*) => { $( split::<$n, _>($p, |a, v, c| {
    let (l, r) = a.split_last();
    let mut i = 0; while i < 8 { check!(c[i].get() == 0); i += 1; }
    check!(r.0 == v[$n - 1]);
    check!(l.as_ref().len() == $n - 1);
    let mut i = 0;
    while i < $n - 1 { check!(l.as_ref()[i].0 == v[i]); i += 1; }
}); )* cover(1); } }
fn bools() {
    let (x, y) = (bits(64), bits(32) as u32);
    check!(ConstTrue.value() & ConstTrue::VALUE & !ConstFalse.value() & !ConstFalse::VALUE);
    check!(<<ConstTrue as ConstBool>::ConditionalInt<ConstUsize<3>, ConstUsize<5>> as ConstInteger>::VALUE == 3);
    check!(<<ConstFalse as ConstBool>::ConditionalInt<ConstUsize<3>, ConstUsize<5>> as ConstInteger>::VALUE == 5);
    let a: CondType<ConstTrue, u64, u32> = CondType::new(|| x, || y);
    let b: CondType<ConstFalse, u64, u32> = CondType::new(|| x, || y);
    check!(a.0 == x);
    check!(b.0 == y);
    check!(a.clone().0 == x);
    check!(b.clone().0 == y);
    match a.get() { Either::True(v) => check!(*v == x), Either::False(_) => check!(false) }
    match b.get() { Either::False(v) => check!(*v == y), Either::True(_) => check!(false) }
    cover(1);
}
harnesses! {
fn c23_to0() { froms!(0: 0 1 2 5 9); }
fn c23_to1() { froms!(1: 0 1 2 8); }
fn c23_to2() { froms!(2: 0 1 2 3); }
fn c23_to3() { froms!(3: 0 1 2 3 4 9); }
fn c23_to4() { froms!(4: 0 1 2 3 4 5); }
fn c23_to5() { froms!(5: 0 1 2 3 4 5 6); }
fn c23_to6() { froms!(6: 0 1 2 3 4 5 6 7); }
fn c23_to7() { froms!(7: 0 1 2 3 4 5 6 7 8); }
fn c23_to8() { froms!(8: 0 1 2 3 4 5 6 7 8 9); }
fn c23_to9() { froms!(9: 0 1 2 3 4 5 6 7 8 9); }
fn c23_ints() {
    int(ConstUsize::<0>, 0); int(ConstUsize::<1>, 1); int(ConstUsize::<2>, 2); int(ConstUsize::<3>, 3); int(ConstUsize::<4>, 4);
    int(ConstUsize::<5>, 5); int(ConstUsize::<6>, 6); int(ConstUsize::<7>, 7); int(ConstUsize::<8>, 8); int(ConstUsize::<9>, 9);
    cover(1);
}
fn c23_split() { splits!((); 1 2 3 4 5 6 7 8); }
fn c23_split_large() { splits!([7u64; 16]; 1 2 3 5 8); }
fn c23_split_aligned() { splits!(Al(1); 1 2 3 8); }
fn c23_split_huge() { splits!([7u64; 200]; 1 3); }
fn c23_split_u8() { plain!(|x: u64| x as u8; 1 2 3 5 8); }
fn c23_split_u128() { plain!(|x: u64| (x as u128) << 60; 1 2 3 8); }
fn c23_split_mixed() { plain!(|x: u64| (x as u8, x >> 1, x as u16); 1 2 4 7 8); }
fn c23_split_zst() { plain!(|_| (); 1 2 3 8); }
fn c23_split_box() { plain!(|x: u64| Box::new(x); 1 2 3 8); }
fn c23_bools() { bools() }
}

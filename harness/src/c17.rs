//! C17: bit queues pop exactly the set bits, ascending.
//!
//! Queues only move forward, so the remaining contents are always {j in x, j >= f} for one
//! floor f: next takes the least of them, trim_to raises f.
use crate::{check, harnesses};
use crate::model::LM;
use crate::sym::*;
use hibit_tree::bit_queue::*;
use hibit_tree::utils::Primitive;
use hibit_tree::*;
use std::ops::ControlFlow::{self, *};

/// The block a queue is made of: words of `W` bits.
#[derive(Clone, Copy)]
struct Blk<const N: usize> { w: [u64; N], wb: usize }
impl<const N: usize> Blk<N> {
    fn cap(&self) -> usize { N * self.wb }
    fn has(&self, j: usize) -> bool {
        let mut r = 0;
        let mut i = 0;
        while i < N { r = ite(j / self.wb == i, self.w[i], r); i += 1; }
        (r >> (j % self.wb)) & 1 == 1
    }
}
trait Mk<const N: usize>: BitQueue { const WB: usize; fn mk(w: [u64; N]) -> Self; }
macro_rules! prim { ($($p:ty)*) => { $(
    impl Mk<1> for PrimitiveBitQueue<$p> { const WB: usize = <$p>::BITS as usize; fn mk(w: [u64; 1]) -> Self { Self::new(w[0] as $p) } }
    impl<const N: usize> Mk<N> for ArrayBitQueue<$p, N> { const WB: usize = <$p>::BITS as usize; fn mk(w: [u64; N]) -> Self { Self::new(std::array::from_fn(|i| w[i] as $p)) } }
)* } }
prim!(u8 u16 u32 u64 usize);

/// any block
fn dense<Q: Mk<N>, const N: usize>() -> Blk<N> {
    let mut w = [0; N];
    let mut i = 0;
    while i < N { w[i] = bits(Q::WB as u32); i += 1; }
    Blk { w, wb: Q::WB }
}
/// any block with at most `k` bits set (or, inverted, cleared)
fn sparse<Q: Mk<N>, const N: usize>(k: usize, inv: bool) -> Blk<N> {
    let mut w = [0; N];
    let full = if Q::WB == 64 { u64::MAX } else { (1 << Q::WB) - 1 };
    let mut n = 0;
    while n < k {
        let p = pos(N * Q::WB);
        let mut i = 0;
        while i < N { w[i] |= ite(p / Q::WB == i, 1 << (p % Q::WB), 0); i += 1; }
        n += 1;
    }
    if inv { let mut i = 0; while i < N { w[i] ^= full; i += 1; } }
    Blk { w, wb: Q::WB }
}
fn pos(cap: usize) -> usize { key(cap.trailing_zeros()) }
/// r is what next must return from floor f
fn is_next<const N: usize>(b: &Blk<N>, f: usize, r: Option<usize>, j: usize) {
    match r {
        Some(i) => {
            check!((i < b.cap()) & (i >= f));
            check!(b.has(i));
            check!(imp_((j >= f) & b.has(j), j >= i));
        }
        None => check!(!((j >= f) & b.has(j))),
    }
}
fn cur_ok<Q: Mk<N>, const N: usize>(b: &Blk<N>, f: usize, q: &Q, j: usize) {
    let c = q.current();
    check!(c <= b.cap());
    check!(imp_((j >= f) & b.has(j), c <= j));
}
/// a script over any block: 'n' next, 't' trim_to, 'T' traverse a few and stop, 'e' for_each
fn script<Q: Mk<N>, const N: usize>(b: Blk<N>, s: &[u8]) {
    let mut q = Q::mk(b.w);
    let j = pos(b.cap());
    let mut f = 0usize;
    cur_ok(&b, f, &q, j);
    for &c in s {
        if c == b'n' {
            let r = q.next();
            is_next(&b, f, r, j);
            match r { Some(i) => f = i + 1, None => { f = b.cap(); check!(q.current() == b.cap()); check!(q.next().is_none()); check!(q.current() == b.cap()); } }
        } else if c == b't' {
            let n = bits(b.cap().trailing_zeros() + 1) as usize;
            q.trim_to(n);
            f = ite(n > f, n as u64, f as u64) as usize;
        } else if c == b'x' {
            // far beyond the capacity
            let n = bits(64) as usize;
            assume(n > 2 * b.cap());
            q.trim_to(n);
            f = b.cap();
        }
        cur_ok(&b, f, &q, j);
    }
    is_next(&b, f, q.next(), j);
    cover(1);
}
/// next a times, then traverse with a callback that breaks at its k-th call
fn travers<Q: Mk<N>, const N: usize>(b: Blk<N>, a: usize, k: usize) {
    let mut q = Q::mk(b.w);
    let j = pos(b.cap());
    let mut f = 0usize;
    let mut n = 0;
    while n < a {
        match q.next() { Some(i) => f = i + 1, None => f = b.cap() }
        n += 1;
    }
    let mut calls = 0;
    let r = q.clone().traverse(|i| {
        is_next(&b, f, Some(i), j);
        f = i + 1;
        calls += 1;
        if calls == k { Break(()) } else { Continue(()) }
    });
    check!(calls <= k);
    if calls == k { check!(r.is_break()); } else { check!(r.is_continue()); is_next(&b, f, None, j); }
    cover(1);
}
/// the whole sequence by next, traverse, for_each and fold, after `a` pops
fn whole<Q: Mk<N>, const N: usize>(b: Blk<N>, a: usize) {
    let mut q = Q::mk(b.w);
    let j = pos(b.cap());
    let mut f = 0usize;
    let mut n = 0;
    while n < a { match q.next() { Some(i) => f = i + 1, None => f = b.cap() } n += 1; }
    let f0 = f;
    let mut seq = [0usize; 68];
    let mut len = 0;
    let mut p = q.clone();
    while let Some(i) = p.next() { is_next(&b, f, Some(i), j); f = i + 1; seq[len] = i; len += 1; }
    is_next(&b, f, None, j);
    check!(p.next().is_none());
    check!(p.current() == b.cap());
    let mut m = 0;
    let r = q.clone().traverse(|i| { check!(m < len); check!(seq[m] == i); m += 1; Continue(()) });
    check!(m == len);
    check!(r.is_continue());
    m = 0;
    q.clone().for_each(|i| { check!(m < len); check!(seq[m] == i); m += 1; });
    check!(m == len);
    m = q.clone().fold(0, |m, i| { check!(m < len); check!(seq[m] == i); m + 1 });
    check!(m == len);
    let _ = f0;
    cover(1);
}
fn fixed<Q: Mk<N>, const N: usize>() {
    let cap = N * Q::WB;
    let mut e = Q::empty();
    check!(e.current() == cap);
    check!(e.clone().traverse(|_| { check!(false); Continue(()) }).is_continue());
    check!(e.next().is_none());
    check!(e.next().is_none());
    e.trim_to(pos(cap));
    check!(e.next().is_none());
    check!(e.current() == cap);
    let mut a = Q::filled();
    let mut i = 0;
    while i < cap { check!(a.current() == i); check!(a.next() == Some(i)); i += 1; }
    check!(a.next().is_none());
    check!(a.current() == cap);
    let n = conc(bits(cap.trailing_zeros() + 1)) as usize;
    let mut b = Q::filled();
    b.trim_to(n);
    check!(b.clone().next() == if n < cap { Some(n) } else { None });
    check!(b.current() == if n < cap { n } else { cap });
    let mut c = n;
    check!(b.traverse(|i| { check!(i == c); c += 1; Continue(()) }).is_continue());
    check!(c == if n > cap { n } else { cap });
    cover(1);
}
type A<const N: usize> = ArrayBitQueue<u64, N>;
type P64 = PrimitiveBitQueue<u64>;
harnesses! {
fn c17_script_u64_nnn() { script::<P64, 1>(dense::<P64, 1>(), b"nnn") }
fn c17_script_u64_ntnt() { script::<P64, 1>(dense::<P64, 1>(), b"ntnt") }
fn c17_script_u64_ttn() { script::<P64, 1>(dense::<P64, 1>(), b"ttn") }
fn c17_script_u64_xn() { script::<P64, 1>(dense::<P64, 1>(), b"nxn") }
fn c17_script_u8_nntn() { script::<PrimitiveBitQueue<u8>, 1>(dense::<PrimitiveBitQueue<u8>, 1>(), b"nntn") }
fn c17_script_u16_nntn() { script::<PrimitiveBitQueue<u16>, 1>(dense::<PrimitiveBitQueue<u16>, 1>(), b"nntn") }
fn c17_script_u32_nntn() { script::<PrimitiveBitQueue<u32>, 1>(dense::<PrimitiveBitQueue<u32>, 1>(), b"nntn") }
fn c17_script_usize_nt() { script::<PrimitiveBitQueue<usize>, 1>(dense::<PrimitiveBitQueue<usize>, 1>(), b"nt") }
fn c17_script_a2_nn() { script::<A<2>, 2>(dense::<A<2>, 2>(), b"nn") }
fn c17_script_a2_nt() { script::<A<2>, 2>(dense::<A<2>, 2>(), b"nt") }
fn c17_script_a2_tn() { script::<A<2>, 2>(dense::<A<2>, 2>(), b"tn") }
fn c17_script_a2_tt() { script::<A<2>, 2>(dense::<A<2>, 2>(), b"tt") }
fn c17_script_a2_x() { script::<A<2>, 2>(dense::<A<2>, 2>(), b"xn") }
fn c17_script_a4_n() { script::<A<4>, 4>(dense::<A<4>, 4>(), b"n") }
fn c17_script_a4_t() { script::<A<4>, 4>(dense::<A<4>, 4>(), b"t") }
fn c17_script_a4_nt() { script::<A<4>, 4>(dense::<A<4>, 4>(), b"nt") }
fn c17_script_a4_tn() { script::<A<4>, 4>(dense::<A<4>, 4>(), b"tn") }
fn c17_script_a4_tt() { script::<A<4>, 4>(dense::<A<4>, 4>(), b"tt") }
fn c17_script_a4_ntx() { script::<A<4>, 4>(sparse::<A<4>, 4>(3, false), b"nx") }
fn c17_script_a8x3_ntn() { script::<ArrayBitQueue<u8, 4>, 4>(dense::<ArrayBitQueue<u8, 4>, 4>(), b"nt") }
fn c17_script_a1_nt() { script::<A<1>, 1>(dense::<A<1>, 1>(), b"nt") }
fn c17_script_a16_nn() { script::<ArrayBitQueue<u16, 2>, 2>(dense::<ArrayBitQueue<u16, 2>, 2>(), b"nnt") }
fn c17_trav_u64() { travers::<P64, 1>(dense::<P64, 1>(), 0, 3) }
fn c17_trav_u64_1() { travers::<P64, 1>(dense::<P64, 1>(), 1, 1) }
fn c17_trav_u8() { travers::<PrimitiveBitQueue<u8>, 1>(dense::<PrimitiveBitQueue<u8>, 1>(), 1, 3) }
fn c17_trav_a2() { travers::<A<2>, 2>(dense::<A<2>, 2>(), 0, 2) }
fn c17_trav_a2_1() { travers::<A<2>, 2>(dense::<A<2>, 2>(), 1, 1) }
fn c17_trav_a4() { travers::<A<4>, 4>(dense::<A<4>, 4>(), 0, 1) }
fn c17_trav_a4_1() { travers::<A<4>, 4>(sparse::<A<4>, 4>(3, false), 1, 2) }
fn c17_whole_u64() { whole::<P64, 1>(sparse::<P64, 1>(3, false), 0) }
fn c17_whole_u64_1() { whole::<P64, 1>(sparse::<P64, 1>(3, false), 1) }
fn c17_whole_u8() { whole::<PrimitiveBitQueue<u8>, 1>(dense::<PrimitiveBitQueue<u8>, 1>(), 0) }
fn c17_whole_a2() { whole::<A<2>, 2>(sparse::<A<2>, 2>(3, false), 0) }
fn c17_whole_a2_1() { whole::<A<2>, 2>(sparse::<A<2>, 2>(2, false), 1) }
fn c17_whole_a4() { whole::<A<4>, 4>(sparse::<A<4>, 4>(2, false), 0) }
fn c17_whole_a4_1() { whole::<A<4>, 4>(sparse::<A<4>, 4>(2, false), 1) }
fn c17_fixed_u64() { fixed::<P64, 1>() }
fn c17_fixed_u8() { fixed::<PrimitiveBitQueue<u8>, 1>() }
fn c17_fixed_u16() { fixed::<PrimitiveBitQueue<u16>, 1>() }
fn c17_fixed_u32() { fixed::<PrimitiveBitQueue<u32>, 1>() }
fn c17_fixed_a2() { fixed::<A<2>, 2>() }
fn c17_fixed_a4() { fixed::<A<4>, 4>() }
fn c17_empty_queue() {
    let mut q = EmptyBitQueue;
    q.trim_to(key(8));
    check!(q.current() == 0);
    check!(q.next().is_none());
    check!(EmptyBitQueue::filled().traverse(|_| { check!(false); Continue(()) }).is_continue());
    check!(EmptyBitQueue::empty().next().is_none());
}
fn c17t_script_u64_nnnnn() { script::<P64, 1>(dense::<P64, 1>(), b"nnnnn") }
fn c17_script_a4_nn() { script::<A<4>, 4>(dense::<A<4>, 4>(), b"nn") }
fn c17t_script_a2_ntnt() { script::<A<2>, 2>(dense::<A<2>, 2>(), b"ntnt") }
fn c17t_whole_a4() { whole::<A<4>, 4>(sparse::<A<4>, 4>(3, false), 0) }
fn c17t_trav_a4() { travers::<A<4>, 4>(dense::<A<4>, 4>(), 1, 2) }
}

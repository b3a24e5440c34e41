//! Oracles and shared pieces of the harnesses.
//!
//! Everything here is written without data dependent branches where possible, so that the
//! oracle adds no paths of its own.
use crate::check;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};

/// Reference map: a log of (key, value) writes, value 0 = absent. The last write wins.
#[derive(Clone, Copy)]
pub struct Log<const N: usize> { pub k: [u64; N], pub v: [u64; N], pub n: usize }
impl<const N: usize> Log<N> {
    pub fn new() -> Self { Log { k: [0; N], v: [0; N], n: 0 } }
    pub fn set(&mut self, k: usize, v: u64) { self.k[self.n] = k as u64; self.v[self.n] = v; self.n += 1; }
    pub fn get(&self, q: usize) -> u64 {
        let mut r = 0;
        let mut i = 0;
        while i < self.n { r = ite(self.k[i] == q as u64, self.v[i], r); i += 1; }
        r
    }
    /// write to key k only if present
    pub fn set_if(&mut self, c: bool, k: usize, v: u64) { let o = self.get(k); self.set(k, ite(c, v, o)); }
    /// number of keys present
    pub fn live(&self) -> u64 {
        let mut c = 0;
        let mut i = 0;
        while i < self.n { c += ite(self.last(i) & (self.v[i] != 0), 1, 0); i += 1; }
        c
    }
    /// is entry i the last write to its key?
    pub fn last(&self, i: usize) -> bool {
        let mut b = true;
        let mut j = i + 1;
        while j < self.n { b = b & (self.k[j] != self.k[i]); j += 1; }
        b
    }
    /// is any key with k>>sh == p present?
    pub fn any_under(&self, sh: u32, p: u64) -> bool {
        let mut b = false;
        let mut i = 0;
        while i < self.n { b = b | (((self.k[i] >> sh) == p) & (self.v[i] != 0) & self.last(i)); i += 1; }
        b
    }
}

/// What the containers have in common. Values are nonzero, 0 stands for "absent".
pub trait Tree: Sized {
    /// log2 of the index range
    const BITS: u32;
    /// 0: DenseTree, 1: SparseTree
    const KIND: u32;
    /// log2 of the node width
    const LB: u32;
    fn new() -> Self;
    fn ins(&mut self, k: usize, v: u64);
    fn rem(&mut self, k: usize) -> u64;
    fn goi(&mut self, k: usize) -> &mut u64;
    fn gt(&self, k: usize) -> u64;
    fn gmut(&mut self, k: usize) -> Option<&mut u64>;
    fn kv(&self) -> (&[usize], &[u64]);
    fn kvm(&mut self) -> (&[usize], &mut [u64]);
    /// in iteration order
    fn each(&self, f: impl FnMut(usize, u64));
    /// the `Iterator` protocol after the end
    fn each_fused(&self, f: impl FnMut(usize, u64)) -> bool;
}
pub fn v0(o: Option<&u64>) -> u64 { match o { Some(v) => *v, None => 0 } }
pub fn o0(o: Option<u64>) -> u64 { match o { Some(v) => v, None => 0 } }

#[macro_export]
macro_rules! tree_common { ($bits:expr, $lb:expr, $kind:expr) => {
    const KIND: u32 = $kind;
    const BITS: u32 = $bits;
    const LB: u32 = $lb;
    fn new() -> Self { Default::default() }
    fn ins(&mut self, k: usize, v: u64) { self.insert(k, v) }
    fn rem(&mut self, k: usize) -> u64 { o0(self.remove(k)) }
    fn goi(&mut self, k: usize) -> &mut u64 { self.get_or_insert(k) }
    fn gt(&self, k: usize) -> u64 { v0(self.get(k)) }
    fn kv(&self) -> (&[usize], &[u64]) { self.key_values() }
    fn kvm(&mut self) -> (&[usize], &mut [u64]) { self.key_values_mut() }
    fn each(&self, mut f: impl FnMut(usize, u64)) { for (k, v) in self.iter() { f(k, *v) } }
    fn each_fused(&self, mut f: impl FnMut(usize, u64)) -> bool {
        let mut it = self.iter();
        while let Some((k, v)) = it.next() { f(k, *v) }
        it.next().is_none() & it.next().is_none()
    }
} }
macro_rules! dense { ($($d:literal)*) => { $( impl Tree for DenseTree<u64, $d> {
    tree_common!(6 * $d, 6, 0);
    fn gmut(&mut self, _: usize) -> Option<&mut u64> { unreachable!() }
} )* } }
dense!(1 2 3 4 5 6 7 8 9);
macro_rules! sparse { ($($w:ident $lb:literal: $($d:ident $n:literal)*;)*) => { $($( impl Tree for SparseTree<config::$w::$d, u64> {
    tree_common!(if $lb * $n > 64 { 64 } else { $lb * $n }, $lb, 1);
    fn gmut(&mut self, k: usize) -> Option<&mut u64> { self.get_mut(k) }
} )*)* } }
sparse! {
    width_64 6: depth_1 1 depth_2 2 depth_3 3 depth_4 4 depth_5 5 depth_6 6 depth_7 7 depth_8 8;
    width_128 7: depth_1 1 depth_2 2 depth_3 3 depth_4 4 depth_5 5 depth_6 6 depth_7 7 depth_8 8;
    width_256 8: depth_1 1 depth_2 2 depth_3 3 depth_4 4 depth_5 5 depth_6 6 depth_7 7 depth_8 8;
}

/// Ordinary 64-bit configurations under one name: D<2> dense, S<2> sparse
pub type D<const N: usize> = DenseTree<u64, N>;
pub type S1 = SparseTree<config::width_64::depth_1, u64>;
pub type S2 = SparseTree<config::width_64::depth_2, u64>;
pub type S3 = SparseTree<config::width_64::depth_3, u64>;
pub type S4 = SparseTree<config::width_64::depth_4, u64>;
pub type S128_1 = SparseTree<config::width_128::depth_1, u64>;
pub type S128_2 = SparseTree<config::width_128::depth_2, u64>;
pub type S256_1 = SparseTree<config::width_256::depth_1, u64>;
pub type S256_2 = SparseTree<config::width_256::depth_2, u64>;

/// A symbolic index over the whole range of the tree.
pub fn tkey<T: Tree>() -> usize {
    let k = key(T::BITS);
    if T::BITS == 64 { assume(k != usize::MAX); }
    k
}
/// A key that agrees with `base` except in the `w` bits from `sh` on.
pub fn near(base: usize, sh: u32, w: u32) -> usize { base ^ (key(w) << sh) }

/// The operations a history is made of; the kind is symbolic too.
pub const INS: u64 = 0;
pub const REM: u64 = 1;
pub const GOI: u64 = 2;
/// One operation with its return value checked against the model.
pub fn op<T: Tree, const N: usize>(t: &mut T, m: &mut Log<N>, kind: u64, k: usize, val: u64) {
    if kind == INS { t.ins(k, val); m.set(k, val); }
    else if kind == REM { check!(t.rem(k) == m.get(k)); m.set(k, 0); }
    else {
        let r = t.goi(k);
        check!(*r == m.get(k));
        *r = val;
        m.set(k, val);
    }
}
/// A history of the given kinds (3 = any kind) with symbolic keys.
pub fn history<T: Tree, const N: usize>(t: &mut T, m: &mut Log<N>, kinds: &[u64], mut next_key: impl FnMut() -> usize) {
    for (i, &kd) in kinds.iter().enumerate() {
        let kd = if kd == 3 { conc(below(3)) } else { kd };
        let k = next_key();
        op(t, m, kd, k, 101 + i as u64);
    }
}
/// Concrete contents: n keys base, base+stride, ... with values 1000+i
pub fn fill<T: Tree, const N: usize>(t: &mut T, m: &mut Log<N>, n: usize, base: usize, stride: usize) {
    let mut i = 0;
    while i < n { t.ins(base + i * stride, 1000 + i as u64); m.set(base + i * stride, 1000 + i as u64); i += 1; }
}
/// get(q) for every q agrees with the model
pub fn same<T: Tree, const N: usize>(t: &T, m: &Log<N>) { let q = tkey::<T>(); check!(t.gt(q) == m.get(q)); }
/// iteration yields exactly the contents, in ascending order, and stays ended
pub fn iter_exact<T: Tree, const N: usize>(t: &T, m: &Log<N>) {
    let mut prev: usize = 0;
    let mut n: u64 = 0;
    let fused = t.each_fused(|k, v| {
        check!((n == 0) | (k > prev));
        check!((v != 0) & (v == m.get(k)));
        prev = k;
        n += 1;
    });
    check!(fused);
    check!(n == m.live());
}
/// key_values lists exactly the contents
pub fn kv_exact<T: Tree, const N: usize>(t: &T, m: &Log<N>) {
    let (k, v) = t.kv();
    check!(k.len() == v.len());
    check!(k.len() as u64 == m.live());
    let mut i = 0;
    while i < k.len() {
        check!((v[i] != 0) & (v[i] == m.get(k[i])));
        let mut j = 0;
        while j < i { check!(k[j] != k[i]); j += 1; }
        i += 1;
    }
}


// ---- nodes and cursors -------------------------------------------------------------------
pub type LM<T> = <T as HibitTree>::LevelMask;
pub type Cur<'a, T> = <T as HibitTreeTypes<'a>>::Cursor;
/// Digit of `q` at level `n` of T.
#[inline(always)]
pub fn digit<T: HibitTree>(q: usize, n: usize) -> usize {
    let lb = LM::<T>::SIZE.ilog2() as usize;
    let d = <T::LevelCount as ConstInteger>::VALUE;
    let sh = lb * (d - 1 - n);
    (q >> sh) & (LM::<T>::SIZE - 1)
}
/// What select_level_node wants for level `n` of the way to `q`.
#[inline(always)]
pub fn arg<T: HibitTree>(q: usize, n: usize) -> usize { if n == 0 { 0 } else { digit::<T>(q, n - 1) } }
/// Select the nodes of levels `N..=upto` on the way to q; the mask of the last one.
/// bit n of `unchecked`: use the unchecked variant on level n
pub fn walk<'a, T: HibitTree, N: ConstInteger>(t: &'a T, c: &mut Cur<'a, T>, n: N, q: usize, upto: usize, unchecked: u64) -> LM<T> {
    let a = arg::<T>(q, N::VALUE);
    let m = unsafe { if unchecked >> N::VALUE & 1 == 1 { c.select_level_node_unchecked(t, n, a) } else { c.select_level_node(t, n, a) } };
    if N::VALUE == upto || N::VALUE + 1 >= <T::LevelCount as ConstInteger>::VALUE { return m; }
    walk::<T, N::Inc>(t, c, n.inc(), q, upto, unchecked)
}
pub fn depth<T: HibitTree>() -> usize { <T::LevelCount as ConstInteger>::VALUE }
pub fn lbits<T: HibitTree>() -> u32 { LM::<T>::SIZE.ilog2() }
/// What lies under a child: q >> under(n) identifies the child of level n that contains q.
pub fn under<T: HibitTree>(n: usize) -> u32 { lbits::<T>() * (depth::<T>() - 1 - n) as u32 }
/// bit of a mask, without branching on which word it is in
pub fn bit_at<M: BitBlock>(m: &M, b: usize) -> bool { m.get_bit(b) }
pub trait TreeH: Tree + HibitTree {}
impl<T: Tree + HibitTree> TreeH for T {}

// ---- structured histories: many items, few symbolic choices -------------------------------
/// 2^sh.len() items on a grid: bit b of the item's number chooses between two digits at the level
/// that shift sh[b] belongs to. Inserted in a symbolic order (number xor k), then the given
/// operations (3 = any kind) at any of them.
pub fn grid<T: Tree, const N: usize>(sh: &[u32], orders: bool, kinds: &[u64], done: impl FnOnce(&T, &Log<N>)) {
    let n = 1u64 << sh.len();
    let at = |i: u64| -> usize {
        let mut k = 0;
        let mut b = 0;
        while b < sh.len() {
            let (lo, hi) = (1 + b, (1usize << T::LB) - 2 - 2 * b);
            k |= (if i >> b & 1 == 1 { hi } else { lo }) << sh[b];
            b += 1;
        }
        if T::BITS < 64 { k & ((1usize << T::BITS) - 1) } else { k }
    };
    let mut t = T::new();
    let mut m = Log::<N>::new();
    let x = if orders { conc(below(n)) } else { 0 };
    let mut i = 0;
    while i < n { t.ins(at(i ^ x), 1000 + i); m.set(at(i ^ x), 1000 + i); i += 1; }
    history(&mut t, &mut m, kinds, || at(conc(below(n))));
    done(&t, &m);
    cover(1);
}
/// Nodes that come and go: `n` neighbouring children of the node at `base`, `stride` apart (each
/// with `per` items, so a whole subtree where the stride is large), then `gone` of them are
/// emptied in any order and then the operations (any kind: 3) at any of n + 2 of them.
pub fn churn<T: Tree, const N: usize>(n: usize, base: usize, stride: usize, per: usize, gone: usize, kinds: &[u64], done: impl FnOnce(&T, &Log<N>)) {
    let mut t = T::new();
    let mut m = Log::<N>::new();
    let mut v = 500;
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < per { t.ins(base + i * stride + j, v); m.set(base + i * stride + j, v); v += 1; j += 1; }
        i += 1;
    }
    let mut there = (1u64 << n) - 1;
    let mut g = 0;
    while g < gone {
        let c = conc(below(n as u64)) as usize;
        assume(there >> c & 1 == 1);
        there &= !(1 << c);
        let mut j = 0;
        while j < per { check!(t.rem(base + c * stride + j) == m.get(base + c * stride + j)); m.set(base + c * stride + j, 0); j += 1; }
        g += 1;
    }
    history(&mut t, &mut m, kinds, || base + conc(below(n as u64 + 2)) as usize * stride);
    done(&t, &m);
    cover(1);
}
/// Much content: n items, then every one of them is there, and nothing next to it.
pub fn bulk<T: Tree>(n: usize, base: usize, stride: usize) {
    let mut t = T::new();
    let mut i = 0;
    while i < n { t.ins(base + i * stride, 7 + i as u64); i += 1; }
    let mut i = 0;
    while i < n { check!(t.gt(base + i * stride) == 7 + i as u64); i += 1; }
    let mut i = 0;
    // forget every second
    while i < n { check!(t.rem(base + i * stride) == 7 + i as u64); i += 2; }
    let mut i = 0;
    while i < n { check!(t.gt(base + i * stride) == if i % 2 == 0 { 0 } else { 7 + i as u64 }); i += 1; }
    no_leak_check();
    cover(1);
    std::mem::forget(t);
}

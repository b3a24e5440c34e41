//! Model trees: every tree at once.
//!
//! `MT` implements the public `HibitTree` / `HibitTreeCursor` traits with symbolic node masks.
//! A harness only visits the nodes on `P` (symbolic) root-to-leaf paths, so a model tree holds
//! the masks of those nodes; they stand for every tree that has these nodes on these paths. It
//! asserts the contract of the unchecked functions: operations may pass only nodes and items
//! that exist, in level order.
use crate::check;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::{Array, Borrowable};
use std::cell::Cell;

pub type M64 = u64;
pub type M128 = <SparseTree<config::width_128::depth_1, u64> as HibitTree>::LevelMask;
pub type M256 = <SparseTree<config::width_256::depth_1, u64> as HibitTree>::LevelMask;

pub fn word<M: BitBlock>(m: &M, i: usize) -> u64 { use hibit_tree::utils::Primitive; m.as_array().as_ref()[i] }
pub fn words<M: BitBlock>() -> usize { M::SIZE / 64 }
pub fn meq<M: BitBlock>(a: &M, b: &M) -> bool {
    let mut d = 0;
    let mut i = 0;
    while i < words::<M>() { d |= word(a, i) ^ word(b, i); i += 1; }
    d == 0
}
/// bit `b` (possibly symbolic) without branching
pub fn mbit<M: BitBlock>(a: &M, b: usize) -> bool {
    let mut w = word(a, 0);
    let mut i = 1;
    while i < words::<M>() { w = ite(b >> 6 == i, word(a, i), w); i += 1; }
    (w >> (b & 63)) & 1 != 0
}
pub fn mzero<M: BitBlock>(a: &M) -> bool {
    let mut d = 0;
    let mut i = 0;
    while i < words::<M>() { d |= word(a, i); i += 1; }
    d == 0
}
pub fn mite<M: BitBlock>(c: bool, a: &M, b: &M) -> M {
    let mut r = M::zero();
    let mut i = 0;
    while i < words::<M>() { r.as_array_mut().as_mut()[i] = ite(c, word(a, i), word(b, i)); i += 1; }
    r
}
pub fn mand<M: BitBlock>(a: &M, b: &M) -> M {
    let mut r = M::zero();
    let mut i = 0;
    while i < words::<M>() { r.as_array_mut().as_mut()[i] = word(a, i) & word(b, i); i += 1; }
    r
}
pub fn mor<M: BitBlock>(a: &M, b: &M) -> M {
    let mut r = M::zero();
    let mut i = 0;
    while i < words::<M>() { r.as_array_mut().as_mut()[i] = word(a, i) | word(b, i); i += 1; }
    r
}
pub fn msym<M: BitBlock>() -> M {
    let mut r = M::zero();
    let mut i = 0;
    while i < words::<M>() { r.as_array_mut().as_mut()[i] = bits(64); i += 1; }
    r
}

pub const fn lb<M: BitBlock>() -> u32 { M::SIZE.ilog2() }
/// the child of the level-`n` node that q lies under
pub fn dig<M: BitBlock, const D: usize>(q: usize, n: usize) -> usize { (q >> (lb::<M>() as usize * (D - 1 - n))) & (M::SIZE - 1) }
/// the number of the level-`n` node that q lies under
pub fn pre<M: BitBlock, const D: usize>(q: usize, n: usize) -> usize { if n == 0 { 0 } else { q >> (lb::<M>() as usize * (D - n)) } }

pub struct MT<M: BitBlock, const D: usize, const P: usize, const X: bool> {
    pub id: u64,
    pub q: [usize; P],
    m: [[M; D]; P],
    ex: [[bool; D]; P],
    /// counts the data accesses
    pub n: Cell<u64>,
}
impl<M: BitBlock, const D: usize, const P: usize, const X: bool> MT<M, D, P, X> {
    pub fn new(id: u64, q: [usize; P]) -> Self {
        let mut t = MT { id, q, m: std::array::from_fn(|_| std::array::from_fn(|_| M::zero())), ex: [[false; D]; P], n: Cell::new(0) };
        let mut l = 0;
        while l < D {
            let mut p = 0;
            while p < P {
                let mut m = msym::<M>();
                let e = if l == 0 { true } else { t.ex[p][l - 1] & mbit(&t.m[p][l - 1], dig::<M, D>(q[p], l - 1)) };
                m = mite(e, &m, &M::zero());
                if X && l > 0 { assume(!e | !mzero(&m)); }
                let mut r = 0;
                while r < p { m = mite(pre::<M, D>(q[r], l) == pre::<M, D>(q[p], l), &t.m[r][l], &m); r += 1; }
                t.m[p][l] = m;
                t.ex[p][l] = e;
                p += 1;
            }
            l += 1;
        }
        t
    }
    /// every index contained, or none
    pub fn fixed(id: u64, q: [usize; P], all: bool) -> Self {
        let mut t = MT { id, q, m: std::array::from_fn(|_| std::array::from_fn(|_| M::zero())), ex: [[true; D]; P], n: Cell::new(0) };
        if all { for p in 0..P { for l in 0..D { for i in 0..words::<M>() { t.m[p][l].as_array_mut().as_mut()[i] = !0; } } } }
        t
    }
    /// A tree with at most two items: the path r has nodes on its first e[r] levels' children, so
    /// e = D: the index is contained, e = 0: nothing of it is there, in between: a node without
    /// items under it (not for exact trees). The paths are from `two`, and part after c levels.
    pub fn of(id: u64, q: [usize; P], c: usize) -> Self {
        Self::having(id, q, c, std::array::from_fn(|_| if X { ite(bits(1) != 0, D as u64, 0) } else { below(D as u64 + 1) }))
    }
    /// `of` with the given e
    pub fn having(id: u64, q: [usize; P], c: usize, e: [u64; P]) -> Self {
        let mut t = MT { id, q, m: std::array::from_fn(|_| std::array::from_fn(|_| M::zero())), ex: [[true; D]; P], n: Cell::new(0) };
        let mut l = 0;
        while l < D {
            let mut p = 0;
            while p < P {
                let mut m = M::zero();
                let mut r = 0;
                while r < P {
                    if r == p || l <= c {
                        let g = dig::<M, D>(q[r], l);
                        let mut i = 0;
                        while i < words::<M>() { m.as_array_mut().as_mut()[i] |= ite((e[r] > l as u64) & (g >> 6 == i), 1 << (g & 63), 0); i += 1; }
                    }
                    r += 1;
                }
                t.m[p][l] = m;
                p += 1;
            }
            l += 1;
        }
        t
    }
    /// item of any index on the paths' terminal nodes, 0 if there is none
    pub fn at(&self, i: usize) -> u64 { let (_, m) = self.path(i); ite(mbit(&m, dig::<M, D>(i, D - 1)), self.item(i), 0) }
    pub fn mask(&self, p: usize, l: usize) -> M { self.m[p][l].clone() }
    pub fn has(&self, p: usize) -> bool { mbit(&self.m[p][D - 1], dig::<M, D>(self.q[p], D - 1)) }
    /// item of path p, 0 if there is none
    pub fn want(&self, p: usize) -> u64 { ite(self.has(p), self.item(self.q[p]), 0) }
    pub fn item(&self, i: usize) -> u64 { (i as u64) << 4 | (self.id + 1) }
    fn path(&self, i: usize) -> (bool, M) {
        let (mut known, mut m) = (false, M::zero());
        let mut p = P;
        while p > 0 { p -= 1; let e = pre::<M, D>(self.q[p], D - 1) == pre::<M, D>(i, D - 1); known |= e; m = mite(e, &self.m[p][D - 1], &m); }
        (known, m)
    }
}
fn tick(c: &Cell<u64>) { c.set(c.get() + 1) }
impl<'this, M: BitBlock, const D: usize, const P: usize, const X: bool> HibitTreeTypes<'this> for MT<M, D, P, X> where ConstUsize<D>: ConstInteger {
    type Data = u64;
    type DataUnchecked = u64;
    type Cursor = MC<M, D, P, X>;
}
impl<M: BitBlock, const D: usize, const P: usize, const X: bool> Borrowable for MT<M, D, P, X> { type Borrowed = Self; }
impl<M: BitBlock, const D: usize, const P: usize, const X: bool> HibitTree for MT<M, D, P, X> where ConstUsize<D>: ConstInteger {
    const EXACT_HIERARCHY: bool = X;
    type LevelCount = ConstUsize<D>;
    type LevelMask = M;
    unsafe fn data(&self, index: usize, li: &[usize]) -> Option<u64> {
        check!(li.len() == D);
        let mut l = 0;
        while l < D { check!(li[l] == dig::<M, D>(index, l)); l += 1; }
        let (known, m) = self.path(index);
        check!(known);
        tick(&self.n);
        if mbit(&m, dig::<M, D>(index, D - 1)) { Some(self.item(index)) } else { None }
    }
    unsafe fn data_unchecked(&self, index: usize, li: &[usize]) -> u64 {
        check!(li.len() == D);
        let mut l = 0;
        while l < D { check!(li[l] == dig::<M, D>(index, l)); l += 1; }
        let (known, m) = self.path(index);
        check!(known);
        check!(mbit(&m, dig::<M, D>(index, D - 1)));
        tick(&self.n);
        self.item(index)
    }
}
pub struct MC<M: BitBlock, const D: usize, const P: usize, const X: bool> {
    cur: [M; D],
    pre: [usize; D],
    /// number of levels selected, top down
    n: usize,
}
impl<M: BitBlock, const D: usize, const P: usize, const X: bool> MC<M, D, P, X> {
    fn sel(&mut self, t: &MT<M, D, P, X>, l: usize, i: usize, unchecked: bool) -> M {
        check!(self.n >= l);
        if l == 0 { check!(i == 0) } else { check!(i < M::SIZE) }
        if l > 0 && unchecked { check!(mbit(&self.cur[l - 1], i)) }
        let x = if l == 0 { 0 } else { self.pre[l - 1] << lb::<M>() | i };
        let (mut known, mut m) = (false, M::zero());
        let mut p = P;
        while p > 0 { p -= 1; let e = pre::<M, D>(t.q[p], l) == x; known |= e; m = mite(e, &t.m[p][l], &m); }
        check!(known);
        self.cur[l] = m.clone();
        self.pre[l] = x;
        self.n = l + 1;
        m
    }
}
impl<'this, M: BitBlock, const D: usize, const P: usize, const X: bool> HibitTreeCursorTypes<'this> for MC<M, D, P, X> { type Data = u64; }
impl<'src, M: BitBlock, const D: usize, const P: usize, const X: bool> HibitTreeCursor<'src> for MC<M, D, P, X> where ConstUsize<D>: ConstInteger {
    type Src = MT<M, D, P, X>;
    fn new(_: &'src Self::Src) -> Self { MC { cur: std::array::from_fn(|_| M::zero()), pre: [0; D], n: 0 } }
    unsafe fn select_level_node<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, i: usize) -> M { self.sel(src, N::VALUE, i, false) }
    unsafe fn select_level_node_unchecked<N: ConstInteger>(&mut self, src: &'src Self::Src, _: N, i: usize) -> M { self.sel(src, N::VALUE, i, true) }
    unsafe fn data<'a>(&'a self, src: &'src Self::Src, i: usize) -> Option<u64> {
        check!((self.n == D) & (i < M::SIZE));
        tick(&src.n);
        if mbit(&self.cur[D - 1], i) { Some(src.item(self.pre[D - 1] << lb::<M>() | i)) } else { None }
    }
    unsafe fn data_unchecked<'a>(&'a self, src: &'src Self::Src, i: usize) -> u64 {
        check!((self.n == D) & (i < M::SIZE));
        check!(mbit(&self.cur[D - 1], i));
        tick(&src.n);
        src.item(self.pre[D - 1] << lb::<M>() | i)
    }
}
impl<M: BitBlock, const D: usize, const P: usize, const X: bool> MT<M, D, P, X> { pub fn calls(&self) -> u64 { self.n.get() } }

/// P symbolic paths through a D-level tree
pub fn paths<M: BitBlock, const D: usize, const P: usize>() -> [usize; P] { std::array::from_fn(|_| key(lb::<M>() * D as u32)) }

// ---- items -------------------------------------------------------------------------------
/// Encodes an item as a number: 0 is "no item".
pub trait Enc { fn enc(self) -> u64; }
impl Enc for u64 { fn enc(self) -> u64 { self } }
impl Enc for &u64 { fn enc(self) -> u64 { *self } }
impl<E: Enc> Enc for Option<E> { fn enc(self) -> u64 { match self { Some(e) => e.enc(), None => 0 } } }
pub fn pair(a: u64, b: u64) -> u64 { a.rotate_left(7) ^ b.rotate_left(21) }
impl<A: Enc, B: Enc> Enc for (A, B) { fn enc(self) -> u64 { let a = self.0.enc(); let b = self.1.enc(); pair(a, b) } }
pub fn enc<E: Enc>(e: E) -> u64 { e.enc() }
/// of a multi operation: the sequence of values
pub fn seq<I: Iterator<Item: Enc>>(it: I) -> u64 { let mut a = 1; for x in it { a = then(a, x.enc()); } a | 1 }
pub fn then(a: u64, v: u64) -> u64 { a.rotate_left(9) ^ v }
pub fn both(a: u64, b: u64, v: u64) -> u64 { ite((a != 0) & (b != 0), v, 0) }
pub fn either(a: u64, b: u64, v: u64) -> u64 { ite((a != 0) | (b != 0), v, 0) }

// ---- cursors -----------------------------------------------------------------------------
type Cur<'a, T> = <T as HibitTreeTypes<'a>>::Cursor;
/// Select the nodes of levels from..=upto on the way to q, compare each mask with `want`.
/// bit n of `unch`: use the unchecked variant on level n wherever the node exists
pub fn steps<'a, T: HibitTree, N: ConstInteger>(t: &'a T, c: &mut Cur<'a, T>, n: N, q: usize, from: usize, upto: usize, unch: u64, want: &impl Fn(usize) -> <T as HibitTree>::LevelMask) {
    let d = <T::LevelCount as ConstInteger>::VALUE;
    let l = <T as HibitTree>::LevelMask::SIZE.ilog2() as usize;
    if N::VALUE >= from {
        let i = if N::VALUE == 0 { 0 } else { (q >> (l * (d - N::VALUE))) & ((1 << l) - 1) };
        let un = unch >> N::VALUE & 1 == 1 && (N::VALUE == 0 || mbit(&want(N::VALUE - 1), i));
        let m = unsafe { if un { c.select_level_node_unchecked(t, n, i) } else { c.select_level_node(t, n, i) } };
        check!(meq(&m, &want(N::VALUE)));
    }
    if N::VALUE == upto || N::VALUE + 1 >= d { return; }
    steps::<T, N::Inc>(t, c, n.inc(), q, from, upto, unch, want)
}
pub fn dep<T: HibitTree>(_: &T) -> usize { <T::LevelCount as ConstInteger>::VALUE }
pub fn low<T: HibitTree>(_: &T, q: usize) -> usize { q & (<T as HibitTree>::LevelMask::SIZE - 1) }
pub fn cur<'a, T: HibitTree>(t: &'a T) -> Cur<'a, T> { HibitTreeCursor::new(t) }

/// get and get_unchecked of one path
#[macro_export]
macro_rules! mt_get { ($t:expr, $enc:path, $q:expr, $want:expr) => {{
    let w: u64 = $want;
    match $t.get($q) { Some(d) => { check!(w != 0); check!($enc(d) == w); } None => check!(w == 0) }
    if w != 0 { check!($enc(unsafe { $t.get_unchecked($q) }) == w); cover(2); } else { cover(3); }
}} }
/// data and data_unchecked of the selected terminal node
#[macro_export]
macro_rules! mt_data { ($t:expr, $c:expr, $enc:path, $q:expr, $want:expr) => {{
    let (w, i): (u64, usize) = ($want, low(&$t, $q));
    match unsafe { $c.data(&$t, i) } { Some(d) => { check!(w != 0); check!($enc(d) == w); } None => check!(w == 0) }
    if w != 0 { check!($enc(unsafe { $c.data_unchecked(&$t, i) }) == w); cover(4); } else { cover(5); }
}} }
/// a cursor on the way to path 0; mask: |path, level|, want: |path|
#[macro_export]
macro_rules! mt_cursor { ($t:expr, $enc:path, $q:expr, $mask:expr, $want:expr) => {{
    let mut c = cur(&$t);
    let un = [0u64, 0x1ff, 0x155][conc(below(3)) as usize];
    steps(&$t, &mut c, hibit_tree::const_utils::ConstUsize::<0>, $q[0], 0, 99, un, &|l| $mask(0, l));
    mt_data!($t, c, $enc, $q[0], $want(0));
}} }
/// a cursor is first moved along path 0 down to some level, then from some common node on along path 1
#[macro_export]
macro_rules! mt_move { ($t:expr, $enc:path, $q:expr, $mask:expr, $want:expr) => {{
    let d = dep(&$t);
    let lbits = $crate::mt::lbt(&$t);
    let mut c = cur(&$t);
    let un = [0u64, 0x1ff, 0x155, 0xaa][conc(below(4)) as usize];
    let upto = conc(below(d as u64)) as usize;
    steps(&$t, &mut c, hibit_tree::const_utils::ConstUsize::<0>, $q[0], 0, upto, un, &|l| $mask(0, l));
    if upto + 1 == d && flag() { mt_data!($t, c, $enc, $q[0], $want(0)); }
    let from = conc(below(upto as u64 + 2)) as usize;
    if from < d {
        if from > 0 { let s = lbits * (d - (from - 1)); if s < 64 { assume($q[0] >> s == $q[1] >> s); } }
        let un = [0u64, 0x1ff, 0xaa][conc(below(3)) as usize];
        steps(&$t, &mut c, hibit_tree::const_utils::ConstUsize::<0>, $q[1], from, 99, un, &|l| $mask(1, l));
        mt_data!($t, c, $enc, $q[1], $want(1));
    }
}} }
/// All the way down one path, then down another from any level; selected with or without checks.
#[macro_export]
macro_rules! mt_hop { ($t:expr, $enc:path, $q:expr, $mask:expr, $want:expr) => {{
    let d = dep(&$t);
    let lbits = $crate::mt::lbt(&$t);
    let mut c = cur(&$t);
    let un = if flag() { 0x1ff } else { 0 };
    steps(&$t, &mut c, hibit_tree::const_utils::ConstUsize::<0>, $q[0], 0, 99, un, &|l| $mask(0, l));
    let from = conc(below(d as u64)) as usize;
    if from > 0 { let s = lbits * (d - (from - 1)); if s < 64 { assume($q[0] >> s == $q[1] >> s); } }
    steps(&$t, &mut c, hibit_tree::const_utils::ConstUsize::<0>, $q[1], from, 99, 0, &|l| $mask(1, l));
    mt_data!($t, c, $enc, $q[1], $want(1));
}} }
pub fn lbt<T: HibitTree>(_: &T) -> usize { <T as HibitTree>::LevelMask::SIZE.ilog2() as usize }

/// Iteration: ascending, exactly the indices with a nonzero `at`, with that item. All of them are among $cands.
#[macro_export]
macro_rules! mt_iter { ($t:expr, $enc:path, $cands:expr, $at:expr) => {{
    let at = $at;
    let mut it = $t.iter();
    let (mut prev, mut n) = (0usize, 0u64);
    while let Some((k, d)) = hibit_tree::utils::LendingIterator::next(&mut it) {
        check!((n == 0) | (k > prev));
        let w: u64 = at(k);
        check!(w != 0);
        check!($enc(d) == w);
        prev = k;
        n += 1;
    }
    check!(hibit_tree::utils::LendingIterator::next(&mut it).is_none());
    check!(n == $crate::mt::count(&$cands, &at));
    cover(n as u32 + 10);
}} }
/// number of different indices among c with a nonzero item
pub fn count(c: &[usize], at: &impl Fn(usize) -> u64) -> u64 {
    let mut n = 0;
    let mut i = 0;
    while i < c.len() {
        let mut new = at(c[i]) != 0;
        let mut j = 0;
        while j < i { new &= c[j] != c[i]; j += 1; }
        n += ite(new, 1, 0);
        i += 1;
    }
    n
}

/// Two paths q0 < q1 that part after c common levels (every c), or one path (c = D)
pub fn two<M: BitBlock, const D: usize>() -> ([usize; 2], usize) {
    let c = conc(below(D as u64 + 1)) as usize;
    let (mut a, mut b) = (0, 0);
    let mut l = 0;
    while l < D {
        let x = key(lb::<M>());
        let y = if l < c { x } else { key(lb::<M>()) };
        if l == c { assume(x < y); }
        a = a << lb::<M>() | x;
        b = b << lb::<M>() | y;
        l += 1;
    }
    ([a, b], c)
}
/// Many trees: all symbolic up to 5 of them, else two symbolic ones among full (and, unless
/// `full`, also empty) ones.
pub fn many<M: BitBlock, const D: usize, const P: usize, const X: bool, const T: usize>(q: [usize; P], full: bool) -> [MT<M, D, P, X>; T] {
    std::array::from_fn(|i| if T <= 5 || i == T / 4 || i == T - 1 { MT::new(i as u64, q) } else { MT::fixed(i as u64, q, full || i % 3 == 0) })
}
/// Many trees over the paths of `two`: two arbitrary ones among trees that have both indices
pub fn crowd<M: BitBlock, const D: usize, const X: bool, const T: usize>(q: [usize; 2], c: usize) -> [MT<M, D, 2, X>; T] {
    std::array::from_fn(|i| if i == T / 4 || i == T - 1 { MT::of(i as u64, q, c) } else { MT::having(i as u64, q, c, [D as u64; 2]) })
}

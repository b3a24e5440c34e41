//! Hash-consed bit-vector expressions with a rewriting constructor, known-bits
//! and unsigned-range information.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Sym,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Slt, Ite,
    Concat,   // a = high, b = low
    Extract,  // a, low bit = b (raw)
    ZExt, SExt,
    Popcnt, Ctz,
}
use Op::*;

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub lo: u64,
    pub hi: u64,
    pub kz: u64,
    pub ko: u64,
    pub syms: u128,
}

pub struct Cx {
    pub n: Vec<Node>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u16, u128), E>,
    map: FxMap<(Op, u16, E, E, E), E>,
    bitmemo: FxMap<(E, E), E>,
    binmemo: FxMap<(Op, E, E), E>,
    exmemo: FxMap<(E, u32, u16), E>,
    /// per symbol: expression, width, is-uninitialised-memory symbol
    pub syms: Vec<(E, u16, bool)>,
}

static mut CX: *mut Cx = std::ptr::null_mut();
#[inline]
pub fn cx() -> &'static mut Cx { unsafe { &mut *CX } }
pub fn init() {
    let c = Box::new(Cx {
        n: vec![], consts: vec![], cmap: Default::default(), map: Default::default(),
        bitmemo: Default::default(), binmemo: Default::default(), exmemo: Default::default(), syms: vec![],
    });
    unsafe { CX = Box::into_raw(c) }
}

#[inline]
pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline]
pub fn mask64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s }
}

#[inline]
pub fn node(e: E) -> &'static Node { &cx().n[e as usize] }
#[inline]
pub fn width(e: E) -> u16 { cx().n[e as usize].w }

pub fn konst(w: u16, v: u128) -> E {
    let v = v & mask(w);
    let c = cx();
    if let Some(&e) = c.cmap.get(&(w, v)) { return e; }
    let id = c.n.len() as E;
    c.consts.push(v);
    let (lo, hi, kz, ko) = if w <= 64 {
        let x = v as u64;
        (x, x, !x & mask64(w), x)
    } else { (0, u64::MAX, 0, 0) };
    c.n.push(Node { op: Const, w, a: (c.consts.len() - 1) as u32, b: 0, c: 0, lo, hi, kz, ko, syms: 0 });
    c.cmap.insert((w, v), id);
    id
}
pub fn as_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Const { Some(cx().consts[n.a as usize]) } else { None }
}
pub fn tru() -> E { konst(1, 1) }
pub fn fls() -> E { konst(1, 0) }

pub fn new_sym(w: u16, uninit: bool) -> E {
    let c = cx();
    let id = c.n.len() as E;
    let sidx = c.syms.len() as u32;
    let hi = if w <= 64 { mask64(w) } else { u64::MAX };
    // bit 127 marks dependence on uninitialised memory
    let bit = if uninit { 1u128 << 127 } else { 1u128 << (sidx % 127) };
    c.n.push(Node { op: Sym, w, a: sidx, b: 0, c: 0, lo: 0, hi, kz: 0, ko: 0, syms: bit });
    c.syms.push((id, w, uninit));
    id
}

/// Constant folding of a single operator.
pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128, c: u128, braw: u32) -> u128 {
    let m = mask(w);
    let r = match op {
        Add => a.wrapping_add(b),
        Sub => a.wrapping_sub(b),
        Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let x = sext128(a, w); (if b >= w as u128 { x >> 127 } else { x >> b }) as u128 }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Slt => (sext128(a, aw) < sext128(b, aw)) as u128,
        Ite => if a != 0 { b } else { c },
        Extract => a >> braw,
        ZExt => a,
        SExt => sext128(a, aw) as u128,
        Popcnt => a.count_ones() as u128,
        Ctz => if a == 0 { w as u128 } else { a.trailing_zeros() as u128 },
        Concat | Const | Sym => unreachable!(),
    };
    r & m
}

struct Info { lo: u64, hi: u64, kz: u64, ko: u64 }

fn info(op: Op, w: u16, a: E, b: E, c: E) -> Info {
    let m = mask64(w);
    let full = Info { lo: 0, hi: m, kz: 0, ko: 0 };
    if w > 64 { return Info { lo: 0, hi: u64::MAX, kz: 0, ko: 0 }; }
    let na = *node(a);
    let mut r = full;
    match op {
        Add => {
            let nb = *node(b);
            if let (Some(l), Some(h)) = (na.lo.checked_add(nb.lo), na.hi.checked_add(nb.hi)) {
                if h <= m { r.lo = l; r.hi = h; }
            }
            // known bits through the carry chain
            let (az, ao, bz, bo) = (na.kz, na.ko, nb.kz, nb.ko);
            let maxsum = (!az & m).wrapping_add(!bz & m);
            let minsum = ao.wrapping_add(bo);
            let ckz = !(maxsum ^ (!az & m) ^ (!bz & m)); // carry known zero
            let cko = minsum ^ ao ^ bo; // carry known one
            let known = (az | ao) & (bz | bo) & (ckz | cko);
            r.kz |= !minsum & known & m;
            r.ko |= minsum & known & m;
        }
        Sub => {
            let nb = *node(b);
            if na.lo >= nb.hi { r.lo = na.lo - nb.hi; r.hi = na.hi - nb.lo; }
            let tz = na.kz.trailing_ones().min(nb.kz.trailing_ones()).min(w as u32);
            r.kz |= if tz >= 64 { u64::MAX } else { (1u64 << tz) - 1 } & m;
        }
        Mul => {
            let nb = *node(b);
            if let (Some(l), Some(h)) = (na.lo.checked_mul(nb.lo), na.hi.checked_mul(nb.hi)) {
                if h <= m { r.lo = l; r.hi = h; }
            }
            let tz = (na.kz.trailing_ones() + nb.kz.trailing_ones()).min(w as u32);
            r.kz |= (if tz >= 64 { u64::MAX } else { (1u64 << tz) - 1 }) & m;
        }
        UDiv => {
            let nb = *node(b);
            if nb.lo > 0 { r.lo = na.lo / nb.hi; r.hi = na.hi / nb.lo; }
        }
        URem => {
            let nb = *node(b);
            if nb.lo > 0 { r.hi = na.hi.min(nb.hi - 1); }
        }
        And => {
            let nb = *node(b);
            r.kz = na.kz | nb.kz;
            r.ko = na.ko & nb.ko;
            r.hi = na.hi.min(nb.hi);
        }
        Or => {
            let nb = *node(b);
            r.kz = na.kz & nb.kz;
            r.ko = na.ko | nb.ko;
            r.lo = na.lo.max(nb.lo);
        }
        Xor => {
            let nb = *node(b);
            let known = (na.kz | na.ko) & (nb.kz | nb.ko);
            let v = na.ko ^ nb.ko;
            r.kz = known & !v;
            r.ko = known & v;
        }
        Shl => {
            let nb = *node(b);
            if nb.lo == nb.hi && nb.lo < w as u64 {
                let s = nb.lo;
                r.kz = ((na.kz << s) | ((1u64 << s) - 1)) & m;
                r.ko = (na.ko << s) & m;
            } else {
                let tz = na.kz.trailing_ones().min(w as u32 - 1) as u64 + nb.lo.min(w as u64);
                let tz = tz.min(w as u64);
                r.kz = (if tz >= 64 { u64::MAX } else { (1u64 << tz) - 1 }) & m;
            }
            if nb.hi < w as u64 {
                if let Some(h) = na.hi.checked_mul(1u64 << nb.hi) {
                    if h <= m { r.hi = h; r.lo = na.lo << nb.lo; }
                }
            }
        }
        LShr => {
            let nb = *node(b);
            r.hi = if nb.lo >= w as u64 { 0 } else { na.hi >> nb.lo };
            r.lo = if nb.hi >= w as u64 { 0 } else { na.lo >> nb.hi };
            if nb.lo == nb.hi && nb.lo < w as u64 {
                let s = nb.lo;
                r.kz = (na.kz >> s) | (m & !(m >> s));
                r.ko = na.ko >> s;
            }
        }
        Ite => {
            let (x, y) = (*node(b), *node(c));
            r.lo = x.lo.min(y.lo);
            r.hi = x.hi.max(y.hi);
            r.kz = x.kz & y.kz;
            r.ko = x.ko & y.ko;
        }
        Concat => {
            let nb = *node(b);
            r.lo = (na.lo << nb.w) | nb.lo;
            r.hi = (na.hi << nb.w) | nb.hi;
            r.kz = (na.kz << nb.w) | nb.kz;
            r.ko = (na.ko << nb.w) | nb.ko;
        }
        Extract => {
            if na.w <= 64 {
                r.kz = (na.kz >> b) & m;
                r.ko = (na.ko >> b) & m;
                if (na.hi >> b) <= m { r.lo = na.lo >> b; r.hi = na.hi >> b; }
            }
        }
        ZExt => {
            r.lo = na.lo;
            r.hi = na.hi;
            r.kz = na.kz | (m & !mask64(na.w));
            r.ko = na.ko;
        }
        SExt => {
            let top = 1u64 << (na.w - 1);
            if na.kz & top != 0 {
                r.lo = na.lo;
                r.hi = na.hi;
                r.kz = na.kz | (m & !mask64(na.w));
                r.ko = na.ko;
            } else {
                r.kz = na.kz & (top - 1);
                r.ko = na.ko & (top - 1);
            }
        }
        Popcnt => {
            r.lo = na.ko.count_ones() as u64;
            if r.lo == 0 && na.lo > 0 { r.lo = 1; }
            r.hi = (mask64(w) & !na.kz).count_ones() as u64;
        }
        Ctz => {
            r.lo = na.kz.trailing_ones().min(w as u32) as u64;
            r.hi = if na.ko != 0 { na.ko.trailing_zeros() as u64 }
                else if na.lo > 0 { 63 - na.hi.leading_zeros() as u64 } else { w as u64 };
        }
        _ => {}
    }
    // reconcile
    r.hi = r.hi.min(!r.kz & m);
    r.lo = r.lo.max(r.ko);
    if r.hi < m {
        let lz = r.hi.leading_zeros(); // bits above are zero
        let keep = if lz == 64 { 0 } else { u64::MAX >> lz };
        r.kz |= m & !keep;
    }
    r
}

fn raw(op: Op, w: u16, a: E, b: E, c: E) -> E {
    let cxr = cx();
    if let Some(&e) = cxr.map.get(&(op, w, a, b, c)) { return e; }
    let i = info(op, w, a, b, c);
    if w <= 64 && i.lo == i.hi { return konst(w, i.lo as u128); }
    let mut syms = cxr.n[a as usize].syms;
    if op != Extract && !matches!(op, ZExt | SExt | Popcnt | Ctz) { syms |= cxr.n[b as usize].syms; }
    if op == Ite { syms |= cxr.n[c as usize].syms; }
    let id = cxr.n.len() as E;
    cxr.n.push(Node { op, w, a, b, c, lo: i.lo, hi: i.hi, kz: i.kz, ko: i.ko, syms });
    cxr.map.insert((op, w, a, b, c), id);
    id
}

fn is_commutative(op: Op) -> bool { matches!(op, Add | Mul | And | Or | Xor | Eq) }

/// `1 << a` with a in range; returns a.
fn onehot(e: E) -> Option<E> {
    let n = node(e);
    if n.op == Shl && as_const(n.a) == Some(1) && node(n.b).hi < n.w as u64 { return Some(n.b); }
    None
}
/// `!(1 << a)`; returns a.
fn not_onehot(e: E) -> Option<E> {
    let n = node(e);
    if n.op == Xor && as_const(n.b) == Some(mask(n.w)) { return onehot(n.a); }
    None
}
/// `(1 << q) - 1`; returns q.
fn lowmask(e: E) -> Option<E> {
    let n = node(e);
    if n.op == Add && as_const(n.b) == Some(mask(n.w)) { return onehot(n.a); }
    if n.op == Xor && as_const(n.b) == Some(mask(n.w)) {
        let s = node(n.a);
        if s.op == Shl && as_const(s.a) == Some(mask(s.w)) && node(s.b).hi < s.w as u64 { return Some(s.b); }
    }
    None
}
pub fn resize(e: E, w: u16) -> E {
    let ew = width(e);
    if ew == w { e } else if ew < w { zext(e, w) } else { extract(e, 0, w) }
}

/// bit i of x (i symbolic, known < width(x)).
pub fn bit(x: E, i: E) -> E {
    if let Some(k) = as_const(i) { return extract(x, k as u32, 1); }
    if let Some(&r) = cx().bitmemo.get(&(x, i)) { return r; }
    let n = *node(x);
    let w = n.w;
    let r = match n.op {
        Const => {
            let c = as_const(x).unwrap();
            if c == 0 { fls() }
            else if c == mask(w) { tru() }
            else {
                let j = if width(i) < w { zext(i, w) } else { i };
                if c.is_power_of_two() { eq(j, konst(width(j), c.trailing_zeros() as u128)) }
                else if (c + 1).is_power_of_two() { ult(j, konst(width(j), c.count_ones() as u128)) }
                else { bit_raw(x, i) }
            }
        }
        And => { let (p, q) = (bit(n.a, i), bit(n.b, i)); and(p, q) }
        Or => { let (p, q) = (bit(n.a, i), bit(n.b, i)); or(p, q) }
        Xor => { let (p, q) = (bit(n.a, i), bit(n.b, i)); xor(p, q) }
        Ite => { let (p, q) = (bit(n.b, i), bit(n.c, i)); ite(n.a, p, q) }
        Shl if onehot(x).is_some() => {
            let j = onehot(x).unwrap();
            let iw = width(i).max(width(j));
            eq(resize(i, iw), resize(j, iw))
        }
        Shl if node(n.a).hi <= 1 && w <= 64 && node(n.b).hi < w as u64 => {
            let j = n.b;
            let iw = width(i).max(width(j));
            and(extract(n.a, 0, 1), eq(resize(i, iw), resize(j, iw)))
        }
        Shl if as_const(n.a) == Some(mask(w)) && node(n.b).hi < w as u64 => {
            let j = n.b;
            let iw = width(i).max(width(j));
            not(ult(resize(i, iw), resize(j, iw)))
        }
        Add if lowmask(x).is_some() => {
            let j = lowmask(x).unwrap();
            let iw = width(i).max(width(j));
            ult(resize(i, iw), resize(j, iw))
        }
        ZExt if node(i).hi < width(n.a) as u64 => bit(n.a, i),
        _ => bit_raw(x, i),
    };
    cx().bitmemo.insert((x, i), r);
    r
}
fn bit_raw(x: E, i: E) -> E {
    let w = width(x);
    let i = resize(i, w);
    let s = raw(LShr, w, x, i, 0);
    if let Some(c) = as_const(s) { return konst(1, c & 1); }
    raw(Extract, 1, s, 0, 0)
}

pub fn not(e: E) -> E { let w = width(e); xor(e, konst(w, mask(w))) }
pub fn and(a: E, b: E) -> E { bin(And, a, b) }
pub fn or(a: E, b: E) -> E { bin(Or, a, b) }
pub fn xor(a: E, b: E) -> E { bin(Xor, a, b) }
pub fn add(a: E, b: E) -> E { bin(Add, a, b) }
pub fn sub(a: E, b: E) -> E { bin(Sub, a, b) }
pub fn eq(a: E, b: E) -> E { bin(Eq, a, b) }
pub fn ult(a: E, b: E) -> E { bin(Ult, a, b) }
pub fn ule(a: E, b: E) -> E { not(ult(b, a)) }
pub fn slt(a: E, b: E) -> E { bin(Slt, a, b) }

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(k) = as_const(c) { return if k != 0 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(0)) => return and(c, a),
            (None, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    let nc = *node(c);
    if nc.op == Xor && as_const(nc.b) == Some(1) { return ite(nc.a, b, a); }
    let (na, nb) = (*node(a), *node(b));
    if na.op == Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Ite && nb.a == c { return ite(c, a, nb.c); }
    // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
    if nb.op == Ite && nb.b == a { return ite(or(c, nb.a), a, nb.c); }
    // ite(c, ite(d, x, y), y) = ite(c&d, x, y)
    if na.op == Ite && na.c == b { return ite(and(c, na.a), na.b, b); }
    if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) {
        return zext(ite(c, na.a, nb.a), w);
    }
    raw(Ite, w, c, a, b)
}

/// All leaves of an ite tree constant (bounded)?
fn ite_const_leaves(e: E, budget: &mut u32) -> bool {
    if *budget == 0 { return false; }
    *budget -= 1;
    let n = node(e);
    match n.op {
        Const => true,
        Ite => ite_const_leaves(n.b, budget) && ite_const_leaves(n.c, budget),
        _ => false,
    }
}
fn ite_leaves(e: E, budget: &mut u32) -> bool {
    if *budget == 0 { return false; }
    *budget -= 1;
    let n = node(e);
    if n.op == Ite { ite_leaves(n.b, budget) && ite_leaves(n.c, budget) } else { true }
}
/// e = sum of zero-extended conditions?
fn bool_sum(e: E, out: &mut Vec<E>) -> bool {
    let n = *node(e);
    if out.len() > 7 { return false; }
    match n.op {
        ZExt if width(n.a) == 1 => { out.push(n.a); true }
        ZExt => bool_sum(n.a, out),
        Add => bool_sum(n.a, out) && bool_sum(n.b, out),
        _ => false,
    }
}
fn exactly(b: &[E], k: u128, memo: &mut FxMap<(usize, u128), E>) -> E {
    if k > b.len() as u128 { return fls(); }
    if b.is_empty() { return tru(); }
    if let Some(&r) = memo.get(&(b.len(), k)) { return r; }
    let x = if k > 0 { exactly(&b[1..], k - 1, memo) } else { fls() };
    let y = exactly(&b[1..], k, memo);
    let r = ite(b[0], x, y);
    memo.insert((b.len(), k), r);
    r
}
fn map_ite(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    let n = *node(e);
    if n.op == Ite {
        let x = map_ite(n.b, f);
        let y = map_ite(n.c, f);
        ite(n.a, x, y)
    } else { f(e) }
}

pub fn extract(a: E, lo: u32, w: u16) -> E {
    let n = *node(a);
    if lo == 0 && w == n.w { return a; }
    if !matches!(n.op, And | Or | Xor | Add | Sub | Mul | Ite) { return extract_raw(a, lo, w); }
    if let Some(&r) = cx().exmemo.get(&(a, lo, w)) { return r; }
    let r = extract_raw(a, lo, w);
    cx().exmemo.insert((a, lo, w), r);
    r
}
fn extract_raw(a: E, lo: u32, w: u16) -> E {
    let n = *node(a);
    match n.op {
        Const => return konst(w, as_const(a).unwrap() >> lo),
        Extract => return extract(n.a, lo + n.b, w),
        ZExt | SExt => {
            let iw = width(n.a);
            if lo as u16 + w <= iw { return extract(n.a, lo, w); }
            if n.op == ZExt {
                if lo as u16 >= iw { return konst(w, 0); }
                if lo == 0 { return zext(n.a, w); }
                return zext(extract(n.a, lo, iw - lo as u16), w);
            }
        }
        Concat => {
            let lw = width(n.b);
            if lo as u16 + w <= lw { return extract(n.b, lo, w); }
            if lo as u16 >= lw { return extract(n.a, lo - lw as u32, w); }
            let low = extract(n.b, lo, lw - lo as u16);
            let high = extract(n.a, 0, w - (lw - lo as u16));
            return concat(high, low);
        }
        And | Or | Xor => {
            let x = extract(n.a, lo, w);
            let y = extract(n.b, lo, w);
            return bin(n.op, x, y);
        }
        Add | Sub | Mul if lo == 0 => {
            let x = extract(n.a, 0, w);
            let y = extract(n.b, 0, w);
            return bin(n.op, x, y);
        }
        Ite => {
            let x = extract(n.b, lo, w);
            let y = extract(n.c, lo, w);
            return ite(n.a, x, y);
        }
        Shl => {
            if let Some(s) = as_const(n.b) {
                let s = s as u32;
                if lo >= s { return extract(n.a, lo - s, w); }
                if lo as u16 + w <= s as u16 { return konst(w, 0); }
                let low = konst((s - lo) as u16, 0);
                let high = extract(n.a, 0, w - (s - lo) as u16);
                return concat(high, low);
            }
            if w == 1 && as_const(n.a) == Some(1) {
                return eq(n.b, konst(n.w, lo as u128));
            }
        }
        LShr => {
            if let Some(s) = as_const(n.b) {
                let s = s as u32;
                if lo + s + (w as u32) <= n.w as u32 { return extract(n.a, lo + s, w); }
                if lo + s >= n.w as u32 { return konst(w, 0); }
                let inner = extract(n.a, lo + s, n.w - (lo + s) as u16);
                return zext(inner, w);
            }
            if lo == 0 && w == 1 && node(n.b).hi < n.w as u64 { return bit(n.a, n.b); }
        }
        _ => {}
    }
    if n.w <= 64 {
        let m = mask64(w);
        let known = (n.kz | n.ko) >> lo;
        if known & m == m { return konst(w, ((n.ko >> lo) & m) as u128); }
    }
    raw(Extract, w, a, lo, 0)
}

pub fn zext(a: E, w: u16) -> E {
    let n = *node(a);
    if n.w == w { return a; }
    debug_assert!(n.w < w);
    match n.op {
        Const => konst(w, as_const(a).unwrap()),
        ZExt => zext(n.a, w),
        Ite => {
            let mut b = 64;
            if ite_const_leaves(a, &mut b) { map_ite(a, &mut |x| konst(w, as_const(x).unwrap())) }
            else { raw(ZExt, w, a, 0, 0) }
        }
        _ => raw(ZExt, w, a, 0, 0),
    }
}
pub fn sext(a: E, w: u16) -> E {
    let n = *node(a);
    if n.w == w { return a; }
    match n.op {
        Const => konst(w, sext128(as_const(a).unwrap(), n.w) as u128),
        ZExt => zext(n.a, w),
        _ => {
            if n.w <= 64 && n.kz >> (n.w - 1) & 1 == 1 { return zext(a, w); }
            if n.w == 1 { return ite(a, konst(w, mask(w)), konst(w, 0)); }
            raw(SExt, w, a, 0, 0)
        }
    }
}
pub fn concat(hi: E, lo: E) -> E {
    let (h, l) = (*node(hi), *node(lo));
    let w = h.w + l.w;
    if let Some(x) = as_const(hi) {
        if let Some(y) = as_const(lo) { return konst(w, (x << l.w) | y); }
        if x == 0 { return zext(lo, w); }
    }
    if h.op == Extract && l.op == Extract && h.a == l.a && h.b == l.b + l.w as u32 {
        return extract(h.a, l.b, w);
    }
    if h.op == ZExt && l.op == Extract {
        // zext(extract(x, k..)) : extract(x, ..k)
        let ih = *node(h.a);
        if ih.op == Extract && ih.a == l.a && ih.b == l.b + l.w as u32 {
            let j = extract(l.a, l.b, l.w + ih.w);
            return zext(j, w);
        }
    }
    if h.op == Concat {
        // (p : q) : lo  -> p : (q : lo) when q:lo merges
        let q = concat(h.b, lo);
        if node(q).op != Concat { return concat(h.a, q); }
    }
    raw(Concat, w, hi, lo, 0)
}

/// A bit mask as a small set of guarded positions: `OR_i (g_i << k_i)`.
/// Guards have width 1, positions log2(width).
const MAXSET: usize = 12;
fn elems(e: E) -> Option<Vec<(E, E)>> {
    let n = *node(e);
    if n.w != 64 { return None; }
    let mut out = vec![];
    if elems_into(e, tru(), &mut out) { Some(out) } else { None }
}
fn elems_into(e: E, g: E, out: &mut Vec<(E, E)>) -> bool {
    let n = *node(e);
    if out.len() > MAXSET { return false; }
    match n.op {
        Const => {
            let mut c = as_const(e).unwrap() as u64;
            if c.count_ones() as usize + out.len() > MAXSET { return false; }
            while c != 0 { add_elem(out, g, konst(6, c.trailing_zeros() as u128)); c &= c - 1; }
            true
        }
        Shl if node(n.a).hi <= 1 && node(n.b).hi < 64 => { add_elem(out, and(g, extract(n.a, 0, 1)), extract(n.b, 0, 6)); true }
        ZExt if width(n.a) == 1 => { add_elem(out, and(g, n.a), konst(6, 0)); true }
        Or => elems_into(n.a, g, out) && elems_into(n.b, g, out),
        Ite => elems_into(n.b, and(g, n.a), out) && elems_into(n.c, and(g, not(n.a)), out),
        _ => false,
    }
}
fn add_elem(out: &mut Vec<(E, E)>, g: E, k: E) {
    if as_const(g) == Some(0) { return; }
    if let Some(x) = out.iter_mut().find(|x| x.1 == k) { x.0 = or(x.0, g); } else { out.push((g, k)); }
}
fn from_elems(v: &[(E, E)]) -> E {
    let mut c = 0u64;
    let mut r: Option<E> = None;
    for &(g, k) in v {
        if as_const(g) == Some(0) { continue; }
        if let (Some(1), Some(k)) = (as_const(g), as_const(k)) { c |= 1 << k; continue; }
        let x = bin(Shl, zext(g, 64), zext(k, 64));
        r = Some(match r { None => x, Some(r) => or(r, x) });
    }
    let k = konst(64, c as u128);
    match r { None => k, Some(r) => or(r, k) }
}
fn is_set(e: E) -> bool {
    let n = node(e);
    n.w == 64 && (n.op == Or || n.op == Shl && n.b != 0 && node(n.a).hi <= 1 && node(n.b).hi < 64)
}
pub fn ctz(a: E) -> E {
    let w = width(a);
    if let Some(c) = as_const(a) { return konst(w, fold(Ctz, w, w, c, 0, 0, 0)); }
    if let Some(j) = onehot(a) { return resize(j, w); }
    let n = *node(a);
    if w == 64 && is_set(a) {
        if let Some(v) = elems(a) {
            // 7 bits: 64 stands for "none"
            let mut acc = konst(7, 64);
            for &(g, k) in v.iter() {
                let k7 = zext(k, 7);
                acc = ite(and(g, ult(k7, acc)), k7, acc);
            }
            return zext(acc, w);
        }
        if n.op == Or { if let Some(c) = as_const(n.b) { if c != 0 && elems(n.a).is_some() {
            let x = extract(ctz(n.a), 0, 7);
            let y = konst(7, c.trailing_zeros() as u128);
            return zext(ite(ult(x, y), x, y), w);
        } } }
    }
    if n.op == Ite { let (x, y) = (ctz(n.b), ctz(n.c)); return ite(n.a, x, y); }
    raw(Ctz, w, a, 0, 0)
}

fn flatten_and(e: E, out: &mut Vec<E>) {
    let n = *node(e);
    if n.op == And && out.len() < 16 { flatten_and(n.a, out); flatten_and(n.b, out); } else { out.push(e); }
}
fn and_all(v: &[E], w: u16) -> E {
    let mut r = konst(w, mask(w));
    for &x in v { r = and(r, x); }
    r
}
pub fn popcnt(a: E) -> E {
    let n = *node(a);
    let w = n.w;
    if let Some(c) = as_const(a) { return konst(w, c.count_ones() as u128); }
    if w == 1 { return a; }
    if n.op == ZExt { let p = popcnt_w(n.a, w); return p; }
    if n.op == Ite { let (x, y) = (popcnt(n.b), popcnt(n.c)); return ite(n.a, x, y); }
    if let Some(q) = lowmask(a) { return resize(q, w); }
    if n.op == Shl && w <= 64 && node(n.b).hi < w as u64 {
        let x = *node(n.a);
        if x.hi <= 1 { return n.a; }
    }
    if w > 64 { return raw(Popcnt, w, a, 0, 0); }
    if is_set(a) { if let Some(v) = elems(a) {
        let mut sum = konst(w, 0);
        for (i, &(g, k)) in v.iter().enumerate() {
            let mut c = g;
            for &(h, l) in &v[..i] { c = and(c, not(and(h, eq(k, l)))); }
            sum = add(sum, zext(c, w));
        }
        return sum;
    } }
    let mut f = vec![];
    flatten_and(a, &mut f);
    for k in 0..f.len() {
        let rest: Vec<E> = f.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, &x)| x).collect();
        if let Some(j) = not_onehot(f[k]) {
            if rest.is_empty() { return konst(w, w as u128 - 1); }
            let r = and_all(&rest, w);
            let p = popcnt(r);
            return sub(p, zext(bit(r, j), w));
        }
        if let Some(j) = onehot(f[k]) {
            let r = and_all(&rest, w);
            return zext(bit(r, j), w);
        }
        let fk = *node(f[k]);
        if fk.op == Or {
            for (x, y) in [(fk.a, fk.b), (fk.b, fk.a)] {
                if let Some(j) = onehot(y) {
                    let l = and_all(&rest, w);
                    let p = popcnt(and(x, l));
                    let d = and(bit(l, j), not(bit(x, j)));
                    return add(p, zext(d, w));
                }
                if let Some(c) = as_const(y) {
                    let l = and_all(&rest, w);
                    let p = popcnt(and(and(x, konst(w, !c)), l));
                    let q = popcnt(and(konst(w, c), l));
                    return add(p, q);
                }
            }
        }
        if fk.op == Ite && rest.len() <= 4 {
            let l = and_all(&rest, w);
            let x = popcnt(and(fk.b, l));
            let y = popcnt(and(fk.c, l));
            return ite(fk.a, x, y);
        }
    }
    if f.len() == 2 {
        for (x, y) in [(f[0], f[1]), (f[1], f[0])] {
            if let (Some(c), Some(q)) = (as_const(x), lowmask(y)) {
                let q = if width(q) < w { zext(q, w) } else { q };
                if (c + 1).is_power_of_two() || c == mask(w) {
                    let k = konst(width(q), c.count_ones() as u128);
                    return resize(ite(ult(q, k), q, k), w);
                }
                if c.is_power_of_two() {
                    return zext(ult(konst(width(q), c.trailing_zeros() as u128), q), w);
                }
            }
        }
    }
    raw(Popcnt, w, a, 0, 0)
}
fn popcnt_w(a: E, w: u16) -> E { let p = popcnt(a); resize(p, w) }

/// The rewriting is recursive over shared sub-expressions: remember results.
pub fn bin(op: Op, a: E, b: E) -> E {
    let (x, y) = (node(a).op, node(b).op);
    if x == Const && y == Const { return bin_raw(op, a, b); }
    if let Some(&r) = cx().binmemo.get(&(op, a, b)) { return r; }
    let r = bin_raw(op, a, b);
    cx().binmemo.insert((op, a, b), r);
    r
}
fn bin_raw(op: Op, a: E, b: E) -> E {
    let (mut a, mut b) = (a, b);
    if is_commutative(op) {
        let (ca, cb) = (node(a).op == Const, node(b).op == Const);
        if ca && !cb { std::mem::swap(&mut a, &mut b); }
        else if !ca && !cb && a > b { std::mem::swap(&mut a, &mut b); }
    }
    let (na, nb) = (*node(a), *node(b));
    let aw = na.w;
    debug_assert_eq!(aw, nb.w, "width mismatch {:?}", op);
    let rw = if matches!(op, Eq | Ult | Slt) { 1 } else { aw };
    let (ka, kb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ka, kb) { return konst(rw, fold(op, rw, aw, x, y, 0, 0)); }
    let m = mask(aw);
    match op {
        Add => {
            if kb == Some(0) { return a; }
            if aw == 1 { return xor(a, b); }
            if aw > 8 && aw <= 64 && na.op == ZExt && nb.op == ZExt {
                let nw = (64 - (na.hi + nb.hi.min(1 << 62)).leading_zeros()) as u16;
                if na.hi < 1 << 30 && nb.hi < 1 << 30 && nw > 0 && nw + 2 < aw {
                    let r = bin(Add, resize(a, nw), resize(b, nw));
                    return zext(r, aw);
                }
            }
            if let Some(k) = kb {
                if na.op == Add { if let Some(k2) = as_const(na.b) { return add(na.a, konst(aw, k.wrapping_add(k2))); } }
                if na.op == Sub { if let Some(k2) = as_const(na.a) { return sub(konst(aw, k.wrapping_add(k2)), na.b); } }
                let mut bud = 64;
                if na.op == Ite && ite_const_leaves(a, &mut bud) {
                    return map_ite(a, &mut |x| konst(aw, as_const(x).unwrap().wrapping_add(k)));
                }
            } else {
                // hoist constants
                if na.op == Add { if let Some(k) = as_const(na.b) { return add(add(na.a, b), konst(aw, k)); } }
                if nb.op == Add { if let Some(k) = as_const(nb.b) { return add(add(a, nb.a), konst(aw, k)); } }
                // x + (y - x) = y
                if nb.op == Sub && nb.b == a { return nb.a; }
                if na.op == Sub && na.b == b { return na.a; }
            }
        }
        Sub => {
            if a == b { return konst(aw, 0); }
            if aw == 1 { return xor(a, b); }
            if let Some(k) = kb { return add(a, konst(aw, k.wrapping_neg())); }
            if na.op == Add {
                if na.a == b { return na.b; }
                if na.b == b { return na.a; }
                if let Some(k) = as_const(na.b) { return add(sub(na.a, b), konst(aw, k)); }
            }
            if nb.op == Add {
                if nb.a == a { return sub(konst(aw, 0), nb.b); }
                if nb.b == a { return sub(konst(aw, 0), nb.a); }
                if let Some(k) = as_const(nb.b) { return add(sub(a, nb.a), konst(aw, k.wrapping_neg())); }
            }
            if na.op == Sub && na.a == b { return sub(konst(aw, 0), na.b); }
        }
        Mul => {
            if let Some(k) = kb {
                if k == 0 { return konst(aw, 0); }
                if k == 1 { return a; }
                if k.is_power_of_two() { return bin(Shl, a, konst(aw, k.trailing_zeros() as u128)); }
                let mut bud = 64;
                if na.op == Ite && ite_const_leaves(a, &mut bud) {
                    return map_ite(a, &mut |x| konst(aw, as_const(x).unwrap().wrapping_mul(k)));
                }
                if na.op == Add { if let Some(k2) = as_const(na.b) {
                    return add(bin(Mul, na.a, b), konst(aw, k2.wrapping_mul(k)));
                } }
            }
        }
        UDiv => if let Some(k) = kb {
            if k == 1 { return a; }
            if k.is_power_of_two() { return bin(LShr, a, konst(aw, k.trailing_zeros() as u128)); }
            // (x * k) / k when no overflow
            if na.op == Mul && as_const(na.b) == Some(k) {
                let x = node(na.a);
                if aw <= 64 && (x.hi as u128) * k <= m { return na.a; }
            }
        },
        URem => if let Some(k) = kb {
            if k.is_power_of_two() { return and(a, konst(aw, k - 1)); }
            if aw <= 64 && (na.hi as u128) < k { return a; }
        },
        SDiv => if aw <= 64 && kb.is_some() {
            let top = aw - 1;
            if na.kz >> top & 1 == 1 && nb.kz >> top & 1 == 1 { return bin(UDiv, a, b); }
        },
        SRem => if aw <= 64 && kb.is_some() {
            let top = aw - 1;
            if na.kz >> top & 1 == 1 && nb.kz >> top & 1 == 1 { return bin(URem, a, b); }
        },
        And => {
            if a == b { return a; }
            if kb == Some(0) { return b; }
            if kb == Some(m) { return a; }
            if aw <= 64 {
                if let Some(k) = kb {
                    let k = k as u64;
                    if na.kz | k == m as u64 { return a; }
                    if na.op == And { if let Some(k2) = as_const(na.b) { return and(na.a, konst(aw, k2 & k as u128)); } }
                    if na.op == ZExt { let iw = width(na.a);
                        return zext(and(na.a, konst(iw, k as u128)), aw); }
                    if k == 1 {
                        return zext(extract(a, 0, 1), aw);
                    }
                    if (k + 1).is_power_of_two() && k != 0 {
                        let kw = k.count_ones() as u16;
                        let x = extract(a, 0, kw);
                        return zext(x, aw);
                    }
                    let mut bud = 64;
                    if na.op == Ite && ite_const_leaves(a, &mut bud) {
                        return map_ite(a, &mut |x| konst(aw, as_const(x).unwrap() & k as u128));
                    }
                }
                // disjoint
                if (na.kz | nb.kz) == m as u64 { return konst(aw, 0); }
            }
            if aw == 1 {
                if nb.op == Xor && as_const(nb.b) == Some(1) && nb.a == a { return fls(); }
                if na.op == Xor && as_const(na.b) == Some(1) && na.a == b { return fls(); }
                if na.op == And && (na.a == b || na.b == b) { return a; }
                if nb.op == And && (nb.a == a || nb.b == a) { return b; }
                // eq(x,k1) & !eq(x,k2)
                for (x, y, o) in [(na, nb, a), (nb, na, b)] {
                    if y.op == Xor && as_const(y.b) == Some(1) {
                        let z = node(y.a);
                        if x.op == Eq && z.op == Eq && z.a == x.a {
                            if let (Some(p), Some(q)) = (as_const(x.b), as_const(z.b)) { if p != q { return o; } }
                        }
                    }
                }
                // eq(x,k1) & eq(x,k2)
                if na.op == Eq && nb.op == Eq && na.a == nb.a {
                    if let (Some(p), Some(q)) = (as_const(na.b), as_const(nb.b)) { if p != q { return fls(); } }
                }
            } else {
                if na.op == And && (na.a == b || na.b == b) { return a; }
                if nb.op == And && (nb.a == a || nb.b == a) { return b; }
                // (x | y) & x = x
                if na.op == Or && (na.a == b || na.b == b) { return b; }
                if nb.op == Or && (nb.a == a || nb.b == a) { return a; }
                // m & (m - 1): drop the lowest element
                for (x, y) in [(a, nb), (b, na)] {
                    if y.op == Add && y.a == x && as_const(y.b) == Some(m) && is_set(x) {
                        if let Some(v) = elems(x) {
                            let mut o = vec![];
                            for (i, &(g, k)) in v.iter().enumerate() {
                                let mut lower = fls();
                                for (j, &(h, l)) in v.iter().enumerate() { if i != j { lower = or(lower, and(h, ult(l, k))); } }
                                o.push((and(g, lower), k));
                            }
                            return from_elems(&o);
                        }
                    }
                }
                if aw == 64 && (is_set(a) || is_set(b)) && !(onehot(a).is_some() && onehot(b).is_some()) {
                    let va = if is_set(a) { elems(a) } else { None };
                    let vb = if is_set(b) { elems(b) } else { None };
                    let pick = match (&va, &vb) { (Some(x), Some(y)) => if x.len() <= y.len() { Some((x, b)) } else { Some((y, a)) }, (Some(x), None) => Some((x, b)), (None, Some(y)) => Some((y, a)), _ => None };
                    if let Some((v, o)) = pick {
                        let r: Vec<(E, E)> = v.iter().map(|&(g, k)| (and(g, bit(o, k)), k)).collect();
                        return from_elems(&r);
                    }
                }
                if let Some(j) = onehot(b) { if kb.is_none() && aw <= 64 {
                    if onehot(a).is_none() { return bin(Shl, zext(bit(a, j), aw), resize(j, aw)); }
                } }
                if let Some(j) = onehot(a) { if aw <= 64 {
                    return bin(Shl, zext(bit(b, j), aw), resize(j, aw));
                } }
            }
        }
        Or => {
            if a == b { return a; }
            if kb == Some(0) { return a; }
            if kb == Some(m) { return b; }
            if na.op == Or && (na.a == b || na.b == b) { return a; }
            if nb.op == Or && (nb.a == a || nb.b == a) { return b; }
            if na.op == And && (na.a == b || na.b == b) { return b; }
            if nb.op == And && (nb.a == a || nb.b == a) { return a; }
            if let Some(k) = kb {
                if na.op == Or { if let Some(k2) = as_const(na.b) { return or(na.a, konst(aw, k2 | k)); } }
                if aw <= 64 && na.ko & k as u64 == k as u64 { return a; }
            }
            if aw == 1 {
                if nb.op == Xor && as_const(nb.b) == Some(1) && nb.a == a { return tru(); }
                if na.op == Xor && as_const(na.b) == Some(1) && na.a == b { return tru(); }
            } else if aw <= 64 {
                // disjoint concat: zext(x) | (y << k)
                for (xe, y) in [(a, nb), (b, na)] {
                    if y.op == Shl { if let Some(s) = as_const(y.b) {
                        let s = s as u16;
                        if s > 0 && s < aw && node(xe).hi <= mask64(s) {
                            let low = extract(xe, 0, s);
                            let high = extract(y.a, 0, aw - s);
                            return concat(high, low);
                        }
                    } }
                }
            }
        }
        Xor => {
            if a == b { return konst(aw, 0); }
            if kb == Some(0) { return a; }
            if let Some(k) = kb {
                if na.op == Xor { if let Some(k2) = as_const(na.b) { return xor(na.a, konst(aw, k ^ k2)); } }
                let mut bud = 64;
                if na.op == Ite && aw > 1 && ite_const_leaves(a, &mut bud) {
                    return map_ite(a, &mut |x| konst(aw, as_const(x).unwrap() ^ k));
                }
            } else {
                // hoist not
                if na.op == Xor { if let Some(k) = as_const(na.b) { return xor(xor(na.a, b), konst(aw, k)); } }
                if nb.op == Xor { if let Some(k) = as_const(nb.b) { return xor(xor(a, nb.a), konst(aw, k)); } }
            }
        }
        Shl | LShr | AShr => {
            if kb == Some(0) { return a; }
            if ka == Some(0) { return a; }
            if let Some(k) = kb {
                if k >= aw as u128 && op != AShr { return konst(aw, 0); }
                let k = k as u32;
                if op == Shl && na.op == Shl { if let Some(k2) = as_const(na.b) {
                    if k2 < 64 { return bin(Shl, na.a, konst(aw, (k as u128 + k2).min(aw as u128))); }
                } }
                if op == LShr {
                    if na.op == LShr { if let Some(k2) = as_const(na.b) {
                        if k2 < 64 { return bin(LShr, na.a, konst(aw, (k as u128 + k2).min(aw as u128))); }
                    } }
                    if na.op == Shl && as_const(na.b) == Some(k as u128) {
                        if aw <= 64 && node(na.a).hi <= (m as u64 >> k) { return na.a; }
                    }
                    // canonicalise to zext(extract)
                    let x = extract(a, k, aw - k as u16);
                    return zext(x, aw);
                }
                if op == AShr && aw <= 64 && na.kz >> (aw - 1) & 1 == 1 { return bin(LShr, a, b); }
                let mut bud = 64;
                if na.op == Ite && ite_const_leaves(a, &mut bud) {
                    return map_ite(a, &mut |x| bin(op, x, b));
                }
            }
        }
        Eq => {
            if a == b { return tru(); }
            if aw <= 64 {
                if na.hi < nb.lo || nb.hi < na.lo { return fls(); }
                if na.ko & nb.kz != 0 || na.kz & nb.ko != 0 { return fls(); }
            }
            if aw == 1 {
                return match kb { Some(1) => a, Some(_) => not(a), None => not(xor(a, b)) };
            }
            if let Some(k) = kb {
                if na.op == Add || na.op == ZExt && node(na.a).op == Add {
                    let mut bs = vec![];
                    let src = if na.op == ZExt { na.a } else { a };
                    if aw <= 64 && bool_sum(src, &mut bs) {
                        // the sum does not wrap: its maximum is representable
                        if (bs.len() as u128) <= mask(width(src)) { return exactly(&bs, k, &mut Default::default()); }
                    }
                }
                match na.op {
                    Add => if let Some(k2) = as_const(na.b) { return eq(na.a, konst(aw, k.wrapping_sub(k2))); },
                    Xor => if let Some(k2) = as_const(na.b) { return eq(na.a, konst(aw, k ^ k2)); },
                    Sub => {
                        if k == 0 { return eq(na.a, na.b); }
                        if let Some(k2) = as_const(na.a) { return eq(na.b, konst(aw, k2.wrapping_sub(k))); }
                    }
                    ZExt => {
                        let iw = width(na.a);
                        if k > mask(iw) { return fls(); }
                        return eq(na.a, konst(iw, k));
                    }
                    SExt => {
                        let iw = width(na.a);
                        if sext128(k & mask(iw), iw) as u128 & m != k { return fls(); }
                        return eq(na.a, konst(iw, k));
                    }
                    Concat => {
                        let lw = width(na.b);
                        let x = eq(na.a, konst(width(na.a), k >> lw));
                        let y = eq(na.b, konst(lw, k));
                        return and(x, y);
                    }
                    Or if k == 0 => { let (x, y) = (eq(na.a, b), eq(na.b, b)); return and(x, y); }
                    Shl => {
                        if let Some(s) = as_const(na.b) {
                            if s < aw as u128 {
                                let s = s as u16;
                                if k & mask(s) != 0 { return fls(); }
                                return eq(extract(na.a, 0, aw - s), konst(aw - s, k >> s));
                            }
                        }
                        if k == 0 && node(na.b).hi < aw as u64 {
                            // zext(bool) << j == 0
                            let x = node(na.a);
                            if x.hi <= 1 { return eq(na.a, konst(aw, 0)); }
                        }
                    }
                    Mul => {
                        if let Some(c) = as_const(na.b) {
                            if aw <= 64 && (node(na.a).hi as u128) * c <= m {
                                if k % c != 0 { return fls(); }
                                return eq(na.a, konst(aw, k / c));
                            }
                        }
                    }
                    Ite => {
                        let mut bud = 200;
                        if ite_const_leaves(a, &mut bud) {
                            return map_ite(a, &mut |x| konst(1, (as_const(x).unwrap() == k) as u128));
                        }
                        // ite(c, x, y) == k where one side is decided
                        let x = eq(na.b, b);
                        let y = eq(na.c, b);
                        if as_const(x).is_some() || as_const(y).is_some() { return ite(na.a, x, y); }
                    }
                    And => {
                        if k.is_power_of_two() && as_const(na.b) == Some(k) {
                            return extract(na.a, k.trailing_zeros(), 1);
                        }
                        if k == 0 { if let Some(c) = as_const(na.b) { if c.is_power_of_two() {
                            return not(extract(na.a, c.trailing_zeros(), 1));
                        } } }
                    }
                    _ => {}
                }
            } else {
                if na.op == ZExt && nb.op == ZExt {
                    let (wa, wb) = (width(na.a), width(nb.a));
                    let iw = wa.max(wb);
                    return eq(resize(na.a, iw), resize(nb.a, iw));
                }
                if na.op == Add && nb.op == Add {
                    if let (Some(p), Some(q)) = (as_const(na.b), as_const(nb.b)) {
                        if p == q { return eq(na.a, nb.a); }
                    }
                    if na.a == nb.a { return eq(na.b, nb.b); }
                    if na.b == nb.b { return eq(na.a, nb.a); }
                    if na.a == nb.b { return eq(na.b, nb.a); }
                    if na.b == nb.a { return eq(na.a, nb.b); }
                }
                if na.op == Add && (na.a == b || na.b == b) {
                    let o = if na.a == b { na.b } else { na.a };
                    return eq(o, konst(aw, 0));
                }
                if nb.op == Add && (nb.a == a || nb.b == a) {
                    let o = if nb.a == a { nb.b } else { nb.a };
                    return eq(o, konst(aw, 0));
                }
                if na.op == Shl && nb.op == Shl && na.b == nb.b && as_const(na.b).is_some() && aw <= 64 {
                    let s = as_const(na.b).unwrap() as u32;
                    let lim = (m as u64).checked_shr(s).unwrap_or(0);
                    if node(na.a).hi <= lim && node(nb.a).hi <= lim { return eq(na.a, nb.a); }
                }
                if let (Some(i), Some(j)) = (onehot(a), onehot(b)) {
                    let iw = width(i).max(width(j));
                    return eq(resize(i, iw), resize(j, iw));
                }
                if na.op == Concat && nb.op == Concat && width(na.b) == width(nb.b) {
                    let (x, y) = (eq(na.a, nb.a), eq(na.b, nb.b));
                    return and(x, y);
                }
                for (x, y) in [(na, b), (nb, a)] {
                    if x.op == Ite && node(y).op != Ite && aw > 1 {
                        let mut bud = 12;
                        if ite_leaves(x.b, &mut bud) && ite_leaves(x.c, &mut bud) {
                            let (p, q) = (eq(x.b, y), eq(x.c, y));
                            return ite(x.a, p, q);
                        }
                    }
                }
                // ite with constant leaves vs other ite with constant leaves: leave
                if na.op == Ite && nb.op == Ite && na.a == nb.a {
                    let (x, y) = (eq(na.b, nb.b), eq(na.c, nb.c));
                    return ite(na.a, x, y);
                }
            }
        }
        Ult => {
            if a == b { return fls(); }
            if aw <= 64 {
                if na.hi < nb.lo { return tru(); }
                if na.lo >= nb.hi { return fls(); }
            }
            if kb == Some(0) { return fls(); }
            if aw == 1 { return and(not(a), b); }
            if kb == Some(1) { return eq(a, konst(aw, 0)); }
            if ka == Some(0) { return not(eq(b, konst(aw, 0))); }
            if aw <= 64 {
                // boundary cases against constants
                if let Some(k) = kb {
                    if k as u64 == na.lo + 1 { return eq(a, konst(aw, na.lo as u128)); }
                    if k as u64 == na.hi { return not(eq(a, b)); }
                }
                if let Some(k) = ka {
                    if nb.hi > 0 && k as u64 == nb.hi - 1 { return eq(b, konst(aw, nb.hi as u128)); }
                    if k as u64 == nb.lo { return not(eq(b, a)); }
                }
            }
            if na.op == ZExt && nb.op == ZExt {
                let iw = width(na.a).max(width(nb.a));
                return ult(resize(na.a, iw), resize(nb.a, iw));
            }
            if na.op == ZExt { if let Some(k) = kb {
                let iw = width(na.a);
                if k > mask(iw) { return tru(); }
                return ult(na.a, konst(iw, k));
            } }
            if nb.op == ZExt { if let Some(k) = ka {
                let iw = width(nb.a);
                if k >= mask(iw) { return fls(); }
                return ult(konst(iw, k), nb.a);
            } }
            let mut bud = 64;
            if let Some(_) = kb { if na.op == Ite && ite_const_leaves(a, &mut bud) {
                return map_ite(a, &mut |x| ult(x, b));
            } }
            let mut bud = 64;
            if let Some(_) = ka { if nb.op == Ite && ite_const_leaves(b, &mut bud) {
                return map_ite(b, &mut |x| ult(a, x));
            } }
        }
        Slt => {
            if a == b { return fls(); }
            if aw <= 64 {
                let t = aw - 1;
                let (az, bz) = (na.kz >> t & 1 == 1, nb.kz >> t & 1 == 1);
                let (ao, bo) = (na.ko >> t & 1 == 1, nb.ko >> t & 1 == 1);
                if (az && bz) || (ao && bo) { return ult(a, b); }
                if az && bo { return fls(); }
                if ao && bz { return tru(); }
                if kb == Some(0) { return extract(a, t as u32, 1); }
                if ka == Some(m) { return not(extract(b, t as u32, 1)); }
            }
        }
        _ => unreachable!("{:?}", op),
    }
    raw(op, rw, a, b, 0)
}

/// Evaluate under a model (symbol index -> value; missing = 0).
pub struct Model {
    pub vals: Vec<u64>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u64>) -> Self { Model { vals, memo: Default::default() } }
    pub fn eval(&self, e: E) -> u128 {
        let n = node(e);
        match n.op {
            Const => return cx().consts[n.a as usize],
            Sym => return (self.vals.get(n.a as usize).copied().unwrap_or(0) as u128) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = self.memo.borrow().get(&e) { return v; }
        let r = match n.op {
            Ite => if self.eval(n.a) != 0 { self.eval(n.b) } else { self.eval(n.c) },
            Concat => (self.eval(n.a) << width(n.b)) | self.eval(n.b),
            Extract => fold(Extract, n.w, 0, self.eval(n.a), 0, 0, n.b),
            ZExt | SExt | Popcnt | Ctz => fold(n.op, n.w, width(n.a), self.eval(n.a), 0, 0, 0),
            _ => fold(n.op, n.w, width(n.a), self.eval(n.a), self.eval(n.b), 0, 0),
        };
        self.memo.borrow_mut().insert(e, r);
        r
    }
}

pub fn tainted(e: E) -> bool { node(e).syms >> 127 != 0 }

/// Substitute symbols.
pub fn subst(e: E, m: &FxMap<E, E>, memo: &mut FxMap<E, E>) -> E {
    if let Some(&r) = m.get(&e) { return r; }
    if let Some(&r) = memo.get(&e) { return r; }
    let n = *node(e);
    let r = match n.op {
        Const | Sym => e,
        Ite => { let (a, b, c) = (subst(n.a, m, memo), subst(n.b, m, memo), subst(n.c, m, memo)); ite(a, b, c) }
        Concat => { let (a, b) = (subst(n.a, m, memo), subst(n.b, m, memo)); concat(a, b) }
        Extract => { let a = subst(n.a, m, memo); extract(a, n.b, n.w) }
        ZExt => { let a = subst(n.a, m, memo); zext(a, n.w) }
        SExt => { let a = subst(n.a, m, memo); sext(a, n.w) }
        Popcnt => { let a = subst(n.a, m, memo); popcnt(a) }
        Ctz => { let a = subst(n.a, m, memo); ctz(a) }
        _ => { let (a, b) = (subst(n.a, m, memo), subst(n.b, m, memo)); bin(n.op, a, b) }
    };
    memo.insert(e, r);
    r
}

pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Const => format!("{:#x}", as_const(e).unwrap()),
        Sym => format!("s{}:{}", n.a, n.w),
        _ if depth == 0 => "..".into(),
        Extract => format!("{}[{}+{}]", show(n.a, depth - 1), n.b, n.w),
        ZExt | SExt | Popcnt | Ctz => format!("{:?}{}({})", n.op, n.w, show(n.a, depth - 1)),
        Ite => format!("ite({}, {}, {})", show(n.a, depth - 1), show(n.b, depth - 1), show(n.c, depth - 1)),
        _ => format!("({:?} {} {})", n.op, show(n.a, depth - 1), show(n.b, depth - 1)),
    }
}

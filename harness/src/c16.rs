//! C16: memory safety for every shape of value type. The engine checks every access (bounds,
//! initialisation, liveness), every deallocation layout and every `unreachable`/precondition.
use crate::{check, harnesses};
use crate::model::{INS, REM, GOI, Log};
use crate::mt::{MT, M64, M128, M256};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::utils::LendingIterator;

/// A value type; `norm` is what is left of a number (0 stands for absent).
pub trait Val: Default { fn mk(v: u64) -> Self; fn rd(&self) -> u64; fn norm(v: u64) -> u64; }
#[derive(Default)]
pub struct Zst;
impl Val for Zst { fn mk(_: u64) -> Self { Zst } fn rd(&self) -> u64 { 1 } fn norm(v: u64) -> u64 { ite(v != 0, 1, 0) } }
impl Val for u8 { fn mk(v: u64) -> Self { v as u8 } fn rd(&self) -> u64 { *self as u64 | 0x100 } fn norm(v: u64) -> u64 { ite(v != 0, (v & 0xff) | 0x100, 0) } }
#[derive(Default)]
#[repr(align(64))]
pub struct Al(u8);
impl Val for Al { fn mk(v: u64) -> Self { Al(v as u8) } fn rd(&self) -> u64 { check!(self as *const Al as usize & 63 == 0); self.0 as u64 | 0x100 } fn norm(v: u64) -> u64 { u8::norm(v) } }
pub struct Big([u64; 33]);
impl Default for Big { fn default() -> Self { Big([0; 33]) } }
impl Val for Big { fn mk(v: u64) -> Self { Big([v; 33]) } fn rd(&self) -> u64 { check!(self.0[0] == self.0[32]); self.0[16] | 0x100 } fn norm(v: u64) -> u64 { ite(v != 0, v | 0x100, 0) } }
impl Val for Box<u32> { fn mk(v: u64) -> Self { Box::new(v as u32) } fn rd(&self) -> u64 { **self as u64 | 0x100 } fn norm(v: u64) -> u64 { ite(v != 0, (v & 0xffff_ffff) | 0x100, 0) } }
impl Val for Vec<u16> { fn mk(v: u64) -> Self { vec![v as u16; 3] } fn rd(&self) -> u64 { (if self.len() == 3 { self[2] } else { 0 }) as u64 | 0x100 } fn norm(v: u64) -> u64 { ite(v != 0, (v & 0xffff) | 0x100, 0) } }
impl Val for (u8, Option<Box<u64>>) { fn mk(v: u64) -> Self { (v as u8, Some(Box::new(v))) } fn rd(&self) -> u64 { self.0 as u64 | 0x100 } fn norm(v: u64) -> u64 { u8::norm(v) } }

type S<L, V> = SparseTree<L, V>;
const DEF: u64 = 1 << 40;   // a default value

/// operations, then every way of reading, then drop
macro_rules! shape { ($T:ty, $V:ty, $bits:expr; $kinds:expr) => {{
    let mut t: $T = Default::default();
    let mut m = Log::<8>::new();
    for (i, &kd) in $kinds.iter().enumerate() {
        let kd = if kd == 3 { conc(below(3)) } else { kd };
        let k = key($bits);
        let v = 0x1_0000_0101 * (i as u64 + 1);
        if kd == INS { t.insert(k, <$V>::mk(v)); m.set(k, v); }
        else if kd == REM { match t.remove(k) { Some(x) => { check!(rd(&x, m.get(k))); m.set(k, 0); } None => check!(m.get(k) == 0) } }
        else {
            let r = t.get_or_insert(k);
            let had = m.get(k);
            check!(rd(r, ite(had != 0, had, DEF)));
            *r = <$V>::mk(v);
            m.set(k, v);
        }
    }
    let how = conc(below(3));
    if how == 0 {
        let q = key($bits);
        match t.get(q) { Some(x) => check!(rd(x, m.get(q))), None => check!(m.get(q) == 0) }
        if m.get(q) != 0 { check!(rd(unsafe { t.get_unchecked(q) }, m.get(q))); }
    } else if how == 1 {
        let mut n = 0;
        for (k, x) in t.iter() { check!(rd(x, m.get(k))); n += 1; }
        check!(n == m.live());
    } else {
        let (ks, vs) = t.key_values_mut();
        check!((ks.len() == vs.len()) & (ks.len() as u64 == m.live()));
        for i in 0..ks.len() { check!(rd(&vs[i], m.get(ks[i]))); vs[i] = <$V>::mk(9); }
        let (ks, vs) = t.key_values();
        for i in 0..ks.len() { check!(rd(&vs[i], 9)); }
    }
    drop(t);
    cover(1);
}} }
fn rd<V: Val>(x: &V, want: u64) -> bool { (want != 0) & ((x.rd() == V::norm(want)) | ((want == DEF) & (x.rd() == V::default().rd()))) }

/// n values, growing all vectors, then removed again in some order
macro_rules! grow { ($T:ty, $V:ty; $n:expr, $sh:expr) => {{
    let mut t: $T = Default::default();
    let n: usize = $n;
    for i in 0..n { t.insert(i << $sh, <$V>::mk(i as u64 + 1)); }
    let k = conc(below(n as u64)) as usize;
    for j in 0..n {
        let i = (j + k) % n;
        let x = t.remove(i << $sh);
        check!(match &x { Some(x) => rd(x, i as u64 + 1), None => false });
        check!(t.get(i << $sh).is_none());
    }
    check!(Iterator::next(&mut t.iter()).is_none());
    for i in 0..3 { t.insert(i << $sh, <$V>::mk(7)); }
    cover(1);
}} }

/// lazy operations over containers of that value type: get, iteration, materialize
macro_rules! lazies { ($T:ty, $V:ty, $bits:expr) => {{
    let k = [0; 3].map(|_| key($bits));
    let (mut a, mut b): ($T, $T) = Default::default();
    a.insert(k[0], <$V>::mk(1));
    a.insert(k[1], <$V>::mk(2));
    b.insert(k[1], <$V>::mk(3));
    b.insert(k[2], <$V>::mk(4));
    let q = key($bits);
    let how = conc(below(6));
    let mut n = 0;
    if how == 0 {
        let t = intersection(&a, &b);
        if let Some((x, y)) = t.get(q) { n += x.rd() + y.rd(); }
        for (_, (x, y)) in HibitTree::iter(&t) { check!(x.rd() != 0 && y.rd() != 0); n += 1; }
    } else if how == 1 {
        let t = union(&a, &b);
        check!(t.get(q).is_some() == ((q == k[0]) | (q == k[1]) | (q == k[2])));
        for (_, (x, y)) in HibitTree::iter(&t) { check!(x.is_some() | y.is_some()); if let Some(x) = x { check!(x.rd() != 0) } n += 1; }
        check!(n >= 1);
    } else if how == 2 {
        let t = multi_intersection([&a, &b, &a].into_iter());
        if let Some(it) = t.get(q) { for x in it { check!(x.rd() != 0) } }
        let mut it = t.iter();
        while let Some((_, vs)) = LendingIterator::next(&mut it) { for x in vs { check!(x.rd() != 0); n += 1; } }
        check!(n % 3 == 0);
    } else if how == 3 {
        let t = multi_union([&a, &b].into_iter());
        if let Some(it) = t.get(q) { for x in it { check!(x.rd() != 0) } }
        let mut it = t.iter();
        while let Some((_, vs)) = LendingIterator::next(&mut it) { for x in vs { check!(x.rd() != 0); n += 1; } }
        check!(n >= 2);
    } else if how == 4 {
        let t = multi_union([&a, &b].into_iter()).map_fold(|| 0u64, |s: u64, x: &$V| s + x.rd());
        for (_, s) in HibitTree::iter(&t) { check!(s != 0); n += 1; }
        check!(n >= 1);
    } else {
        let t = map(&a, |x: &$V| <$V>::mk(x.rd()));
        for (_, x) in HibitTree::iter(&t) { check!(x.rd() != 0); n += 1; }
        check!(n == 1 + (k[0] != k[1]) as u64);
    }
    cover(1);
}} }
/// a copy of a container that holds values of that type
macro_rules! copy { ($D:literal, $V:ty; $kinds:expr) => {{
    let k = [0; 2].map(|_| key(6 * $D));
    let mut a = DenseTree::<$V, $D>::default();
    a.insert(k[0], <$V>::mk(1));
    a.insert(k[1], <$V>::mk(2));
    let mut t: DenseTree<$V, $D> = if flag() { map(&a, |_: &$V| <$V>::mk(5)).materialize() } else { intersection(&a, &a).map(|_: (&$V, &$V)| <$V>::mk(5)).materialize() };
    let mut new = usize::MAX;
    for &kd in $kinds {
        let q = key(6 * $D);
        let had = (q == k[0]) | (q == k[1]) | (q == new);
        if kd == INS { t.insert(q, <$V>::mk(5)); new = q; } else { check!(t.remove(q).is_some() == had); t.get_or_insert(q); t.remove(q); }
    }
    for (_, x) in t.iter() { check!(rd(x, 5)); }
    cover(1);
}} }
harnesses! {
fn c16_zst_d1() { shape!(DenseTree<Zst, 1>, Zst, 6; [3, 3, 3]) }
fn c16_zst_d2() { shape!(DenseTree<Zst, 2>, Zst, 12; [3, 3]) }
fn c16_zst_s2() { shape!(S<w64::depth_2, Zst>, Zst, 12; [3, 3]) }
fn c16_zst_s256() { shape!(S<w256::depth_1, Zst>, Zst, 8; [INS, INS, REM]) }
fn c16_u8_d1() { shape!(DenseTree<u8, 1>, u8, 6; [3, 3, 3]) }
fn c16_u8_d2() { shape!(DenseTree<u8, 2>, u8, 12; [3, 3]) }
fn c16_u8_s2() { shape!(S<w64::depth_2, u8>, u8, 12; [3, 3]) }
fn c16_u8_s128() { shape!(S<w128::depth_1, u8>, u8, 7; [3, 3]) }
fn c16_align_d1() { shape!(DenseTree<Al, 1>, Al, 6; [3, 3, 3]) }
fn c16_align_d2() { shape!(DenseTree<Al, 2>, Al, 12; [3, 3]) }
fn c16_align_s2() { shape!(S<w64::depth_2, Al>, Al, 12; [3, 3]) }
fn c16_big_d1() { shape!(DenseTree<Big, 1>, Big, 6; [3, 3]) }
fn c16_big_d2() { shape!(DenseTree<Big, 2>, Big, 12; [INS, INS, REM]) }
fn c16_big_s2() { shape!(S<w64::depth_2, Big>, Big, 12; [3, 3]) }
fn c16_box_d1() { shape!(DenseTree<Box<u32>, 1>, Box<u32>, 6; [3, 3, 3]) }
fn c16_box_d3() { shape!(DenseTree<Box<u32>, 3>, Box<u32>, 18; [3, 3]) }
fn c16_box_s3() { shape!(S<w64::depth_3, Box<u32>>, Box<u32>, 18; [3, 3]) }
fn c16_vec_d2() { shape!(DenseTree<Vec<u16>, 2>, Vec<u16>, 12; [3, 3]) }
fn c16_vec_s256() { shape!(S<w256::depth_1, Vec<u16>>, Vec<u16>, 8; [INS, REM, GOI]) }
fn c16_pair_d2() { shape!(DenseTree<(u8, Option<Box<u64>>), 2>, (u8, Option<Box<u64>>), 12; [3, 3]) }
fn c16_pair_s2() { shape!(S<w64::depth_2, (u8, Option<Box<u64>>)>, (u8, Option<Box<u64>>), 12; [3, 3]) }
fn c16_grow_zst_d2() { grow!(DenseTree<Zst, 2>, Zst; 10, 6) }
fn c16_grow_u8_d1() { grow!(DenseTree<u8, 1>, u8; 34, 0) }
fn c16_grow_u8_d2() { grow!(DenseTree<u8, 2>, u8; 34, 6) }
fn c16_grow_align_d2() { grow!(DenseTree<Al, 2>, Al; 10, 5) }
fn c16_grow_box_d2() { grow!(DenseTree<Box<u32>, 2>, Box<u32>; 18, 6) }
fn c16_grow_full_d1() { grow!(DenseTree<u8, 1>, u8; 64, 0) }
fn c16_grow_full_d2() { grow!(DenseTree<u8, 2>, u8; 64, 6) }
fn c16_grow_align_s2() { grow!(S<w64::depth_2, Al>, Al; 10, 5) }
fn c16_grow_full_s1() { grow!(S<w64::depth_1, u8>, u8; 64, 0) }
fn c16_grow_box_s128() { grow!(S<w128::depth_2, Box<u32>>, Box<u32>; 18, 7) }
fn c16_grow_u8_s256() { grow!(S<w256::depth_2, u8>, u8; 34, 8) }
fn c16_lazy_zst() { lazies!(DenseTree<Zst, 1>, Zst, 6) }
fn c16_lazy_u8() { lazies!(S<w64::depth_2, u8>, u8, 12) }
fn c16_lazy_align() { lazies!(DenseTree<Al, 2>, Al, 12) }
fn c16_lazy_box() { lazies!(DenseTree<Box<u32>, 2>, Box<u32>, 12) }
fn c16_lazy_vec() { lazies!(S<w64::depth_1, Vec<u16>>, Vec<u16>, 6) }
fn c16_copy_zst() { copy!(2, Zst; &[INS]) }
fn c16_copy_u8() { copy!(1, u8; &[INS, REM]) }
fn c16_copy_align() { copy!(2, Al; &[REM]) }
fn c16_copy_big() { copy!(2, Big; &[INS]) }
fn c16_copy_box() { copy!(2, Box<u32>; &[INS]) }
fn c16_copy_vec() { copy!(3, Vec<u16>; &[REM]) }
fn c16t_box_d2() { shape!(DenseTree<Box<u32>, 2>, Box<u32>, 12; [3, 3, 3]) }
fn c16t_align_s2() { shape!(S<w64::depth_2, Al>, Al, 12; [3, 3, 3]) }
fn c16t_grow_full_s256() { grow!(S<w256::depth_1, u8>, u8; 256, 0) }
}

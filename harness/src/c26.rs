//! C26: get_or_default of containers made with ReqDefault.
use crate::{check, harnesses};
use crate::model::{Log, INS, REM, GOI};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};

/// 55 is the default; values are other numbers, not 0
#[derive(Clone, Copy, PartialEq)]
pub struct W(u64, u8);
impl Default for W { fn default() -> W { W(55, 3) } }
type S<L> = SparseTree<L, W, ReqDefault>;
fn is(w: &W, want: u64) -> bool { (w.0 == ite(want == 0, 55, want)) & (w.1 == 3) }

/// kinds: 0 insert, 1 remove, 2 get_or_insert, 3 get_mut, 4 all of key_values_mut, 9 any
macro_rules! run { ($T:ty, $bits:literal, $kinds:expr, |$n:ident| $fill:expr) => {{
    let mut t: $T = Default::default();
    let mut m = Log::<80>::new();
    for $n in 0..$fill { let k = $n * 3; t.insert(k, W(1000 + k as u64, 3)); m.set(k, 1000 + k as u64); }
    let key = || { let k = key($bits); if $bits == 64 { assume(k != usize::MAX) } k };
    let mut v = 100;
    for &kd in &$kinds {
        let kd = if kd == 9 { conc(below(4)) } else { kd };
        let k = key();
        v += 1;
        match kd {
            0 => { t.insert(k, W(v, 3)); m.set(k, v); }
            1 => { match t.remove(k) { Some(w) => check!((m.get(k) != 0) & (w.0 == m.get(k))), None => check!(m.get(k) == 0) } m.set(k, 0); }
            2 => { let w = t.get_or_insert(k); check!(is(w, m.get(k))); w.0 = v; m.set(k, v); }
            3 => { match t.get_mut(k) { Some(w) => { check!((m.get(k) != 0) & (w.0 == m.get(k))); w.0 = v; m.set(k, v); } None => check!(m.get(k) == 0) } }
            _ => { for w in t.key_values_mut().1 { w.0 = w.0 + 7; } let n = m.n; for i in 0..n { let (k, w) = (m.k[i], m.v[i]); if m.last(i) { m.v[i] = ite(w != 0, w + 7, 0); let _ = k; } } }
        }
    }
    let q = key();
    check!(is(t.get_or_default(q), m.get(q)));
    check!(match t.get(q) { Some(w) => (m.get(q) != 0) & (w.0 == m.get(q)), None => m.get(q) == 0 });
    // the default is not an element
    check!(t.key_values().0.len() as u64 == m.live() && t.key_values().1.len() as u64 == m.live());
    // by an Index, another time, and another index
    let i: Index<<$T as HibitTree>::LevelMask, <$T as HibitTree>::LevelCount> = Index::from(q);
    check!(is(t.get_or_default(i), m.get(q)));
    let p = key();
    check!(is(t.get_or_default(p), m.get(p)));
    cover(1);
}} }
/// iteration does not reach it, and a missing item gives the same default each time
macro_rules! iter { ($T:ty, $bits:literal) => {{
    let mut t: $T = Default::default();
    let (a, b, c) = (key($bits), key($bits), key($bits));
    t.insert(a, W(101, 3));
    t.insert(b, W(102, 3));
    let d = t.get_or_default(c) as *const W;
    let mut n = 0;
    for (k, w) in t.iter() { check!((k == a) | (k == b)); check!((w.0 == 101) | (w.0 == 102)); check!(imp_((c != a) & (c != b), w as *const W != d)); n += 1; }
    check!(n == ite(a == b, 1, 2));
    for w in t.key_values().1 { check!((w.0 == 101) | (w.0 == 102)); }
    let there = t.remove(c).is_some();
    check!(there == ((c == a) | (c == b)));
    check!(is(t.get_or_default(c), 0));
    cover(1);
}} }
harnesses! {
fn c26_any3_w64_1() { run!(S<w64::depth_1>, 6, [9, 9, 9], |n| 0) }
fn c26_any3_w64_2() { run!(S<w64::depth_2>, 12, [9, 9, 9], |n| 0) }
fn c26_any2_w64_3() { run!(S<w64::depth_3>, 18, [9, 9], |n| 0) }
fn c26_any2_w64_4() { run!(S<w64::depth_4>, 24, [9, 9], |n| 0) }
fn c26_any2_w64_5() { run!(S<w64::depth_5>, 30, [9, 9], |n| 0) }
fn c26_any2_w64_6() { run!(S<w64::depth_6>, 36, [9, 9], |n| 0) }
fn c26_any2_w64_7() { run!(S<w64::depth_7>, 42, [9, 9], |n| 0) }
fn c26_any2_w64_8() { run!(S<w64::depth_8>, 48, [9, 9], |n| 0) }
fn c26_any2_w128_1() { run!(S<w128::depth_1>, 7, [9, 9], |n| 0) }
fn c26_any2_w128_2() { run!(S<w128::depth_2>, 14, [9, 9], |n| 0) }
fn c26_any2_w128_5() { run!(S<w128::depth_5>, 35, [9, 9], |n| 0) }
fn c26_any2_w128_8() { run!(S<w128::depth_8>, 56, [9, 9], |n| 0) }
fn c26_any2_w256_1() { run!(S<w256::depth_1>, 8, [9, 9], |n| 0) }
fn c26_any2_w256_2() { run!(S<w256::depth_2>, 16, [9, 9], |n| 0) }
fn c26_any2_w256_5() { run!(S<w256::depth_5>, 40, [9, 9], |n| 0) }
fn c26_any2_w256_8() { run!(S<w256::depth_8>, 64, [9, 9], |n| 0) }
fn c26_iirr_w64_2() { run!(S<w64::depth_2>, 12, [0, 0, 1, 1], |n| 0) }
fn c26_kvm_w64_1() { run!(S<w64::depth_1>, 6, [9, 9, 4, 1], |n| 0) }
fn c26_kvm_w128_2() { run!(S<w128::depth_2>, 14, [0, 0, 4], |n| 0) }
fn c26_fill_w64_1() { run!(S<w64::depth_1>, 6, [9], |n| 20) }
fn c26_fill_w64_2() { run!(S<w64::depth_2>, 12, [9], |n| 12) }
fn c26_fill_w128_1() { run!(S<w128::depth_1>, 7, [9], |n| 40) }
fn c26_fill_w256_1() { run!(S<w256::depth_1>, 8, [9], |n| 70) }
fn c26_iter_w64_1() { iter!(S<w64::depth_1>, 6) }
fn c26_iter_w64_3() { iter!(S<w64::depth_3>, 18) }
fn c26_iter_w128_1() { iter!(S<w128::depth_1>, 7) }
}

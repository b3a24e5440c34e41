//! C24: a panic in user code leaves containers sound. Memory may leak, values must not be
//! dropped twice, and what was not involved stays.
use crate::{check, harnesses};
use crate::model::{Log, INS, REM, GOI};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};

const MAX: usize = 100;
/// of each value: 0 not created, 1 alive, 2 dropped
static mut STATE: [u8; MAX] = [0; MAX];
static mut NEXT: usize = 1;
/// Default throws
static mut NO_DEFAULT: bool = false;
/// the drop of this value throws
static mut NO_DROP: u64 = 0;
/// the n-th call of a function throws
static mut CALLS: u64 = 0;
static mut THROW_AT: u64 = u64::MAX;
fn next() -> u64 { unsafe { NEXT as u64 } }
fn state(i: u64) -> u8 { unsafe { STATE[i as usize] } }
fn call() { unsafe { let n = CALLS; CALLS += 1; if n == THROW_AT { throw() } } }
pub struct V { id: u64, b: Box<u64> }
impl V {
    fn new() -> V { unsafe { let id = NEXT; NEXT += 1; check!(STATE[id] == 0); STATE[id] = 1; V { id: id as u64, b: Box::new(id as u64 + 7) } } }
}
impl Default for V { fn default() -> V { unsafe { if NO_DEFAULT { throw() } } V::new() } }
impl Drop for V {
    fn drop(&mut self) {
        unsafe {
            let id = conc(self.id) as usize;
            check!((id > 0) & (id < MAX));
            check!(STATE[id] == 1);
            check!(*self.b == self.id + 7);
            STATE[id] = 2;
            if NO_DROP == id as u64 { throw() }
        }
    }
}
pub trait TV { const BITS: u32; fn new() -> Self; fn ins(&mut self, k: usize, v: V); fn rem(&mut self, k: usize) -> Option<V>; fn goi(&mut self, k: usize) -> &mut V; fn gt(&self, k: usize) -> Option<&V>; fn len(&self) -> usize; fn each(&self, f: impl FnMut(usize, &V)); }
macro_rules! tv { ($($t:ty, $b:literal;)*) => { $( impl TV for $t {
    const BITS: u32 = $b;
    fn new() -> Self { Default::default() }
    fn ins(&mut self, k: usize, v: V) { self.insert(k, v) }
    fn rem(&mut self, k: usize) -> Option<V> { self.remove(k) }
    fn goi(&mut self, k: usize) -> &mut V { self.get_or_insert(k) }
    fn gt(&self, k: usize) -> Option<&V> { self.get(k) }
    fn len(&self) -> usize { self.key_values().0.len() }
    fn each(&self, mut f: impl FnMut(usize, &V)) { for (k, v) in HibitTree::iter(self) { f(k, v) } }
} )* } }
type SV<L> = SparseTree<L, V>;
type SD<L> = SparseTree<L, V, ReqDefault>;
tv! {
    DenseTree<V, 1>, 6; DenseTree<V, 2>, 12; DenseTree<V, 3>, 18; DenseTree<V, 4>, 24;
    SV<w64::depth_1>, 6; SV<w64::depth_2>, 12; SV<w64::depth_4>, 24; SV<w128::depth_1>, 7; SV<w128::depth_2>, 14; SV<w256::depth_1>, 8; SV<w256::depth_2>, 16;
    SD<w64::depth_1>, 6; SD<w64::depth_2>, 12; SD<w256::depth_1>, 8;
}
/// contents are what the model says, exactly those values (and placeholders below `first`) are alive
fn agree<T: TV, const N: usize>(t: &T, m: &Log<N>, first: u64) {
    let q = key(T::BITS);
    match t.gt(q) { Some(v) => check!(v.id == m.get(q) && *v.b == v.id + 7), None => check!(m.get(q) == 0) }
    check!(t.len() as u64 == m.live());
    let mut id = first;
    while id < next() {
        let mut held = false;
        let mut i = 0;
        while i < m.n { held |= m.last(i) & (m.v[i] == id); i += 1; }
        check!((state(id) == 1) == held);
        id += 1;
    }
}
fn each_exact<T: TV, const N: usize>(t: &T, m: &Log<N>) {
    let (mut n, mut p) = (0, 0);
    t.each(|k, v| { check!((n == 0) | (k > p)); check!(v.id == m.get(k)); p = k; n += 1; });
    check!(n == m.live());
}
fn one<T: TV, const N: usize>(t: &mut T, m: &mut Log<N>, kd: u64, k: usize) {
    if kd == INS { let v = V::new(); let id = v.id; t.ins(k, v); m.set(k, id); }
    else if kd == REM { match t.rem(k) { Some(v) => { check!(v.id == m.get(k)); m.set(k, 0); } None => check!(m.get(k) == 0) } }
    else { let id = t.goi(k).id; let had = m.get(k); check!(imp_(had != 0, id == had)); m.set(k, id); }
}
fn all_dropped(first: u64) { let mut i = first; while i < next() { check!(state(i) == 2); i += 1; } }
/// Default panics in get_or_insert; then more operations
fn default<T: TV>(before: &[u64], after: &[u64], iter: bool) {
    no_leak_check();
    let mut t = T::new();
    let first = next();
    let mut m = Log::<8>::new();
    for &kd in before { let k = key(T::BITS); one(&mut t, &mut m, if kd == 3 { conc(below(3)) } else { kd }, k); }
    let k = key(T::BITS);
    unsafe { NO_DEFAULT = true; }
    let mut id = 0;
    let p = catch(|| id = t.goi(k).id);
    unsafe { NO_DEFAULT = false; }
    check!(p == (m.get(k) == 0));
    check!(id == m.get(k));
    agree(&t, &m, first);
    if iter { each_exact(&t, &m); }
    for &kd in after { let k = key(T::BITS); one(&mut t, &mut m, if kd == 3 { conc(below(3)) } else { kd }, k); agree(&t, &m, first); }
    if iter { each_exact(&t, &m); }
    drop(t);
    all_dropped(1);
    cover(1);
}
/// the drop of a value that insert replaces panics
fn replace<T: TV>(before: &[u64], after: &[u64]) {
    no_leak_check();
    let mut t = T::new();
    let first = next();
    let mut m = Log::<8>::new();
    for &kd in before { let k = key(T::BITS); one(&mut t, &mut m, kd, k); }
    let k = key(T::BITS);
    let old = conc(m.get(k));
    assume(old != 0);
    unsafe { NO_DROP = old; }
    let v = V::new();
    let new = v.id;
    let mut v = Some(v);
    let p = catch(|| t.ins(k, v.take().unwrap()));
    unsafe { NO_DROP = 0; }
    check!(p && state(old) == 2);
    // the replaced value is gone; the new one is contained (or dropped and nothing is)
    match t.gt(k) { Some(x) => { check!(x.id == new && state(new) == 1); m.set(k, new); } None => { check!(state(new) == 2); m.set(k, 0); } }
    agree(&t, &m, first);
    for &kd in after { let k = key(T::BITS); one(&mut t, &mut m, if kd == 3 { conc(below(3)) } else { kd }, k); agree(&t, &m, first); }
    drop(t);
    all_dropped(1);
    cover(1);
}
/// the drop of one of the values panics while the container is dropped
fn in_drop<T: TV>(kinds: &[u64]) {
    no_leak_check();
    let mut t = T::new();
    let first = next();
    let mut m = Log::<8>::new();
    for &kd in kinds { let k = key(T::BITS); one(&mut t, &mut m, if kd == 3 { conc(below(3)) } else { kd }, k); }
    let bad = 1 + conc(below(next()));
    let there = bad < next() && state(bad) == 1;
    unsafe { NO_DROP = bad; }
    let mut t = Some(t);
    let p = catch(|| drop(t.take()));
    unsafe { NO_DROP = 0; }
    check!(p == there);
    if there { check!(state(bad) == 2); } else { all_dropped(1); }
    cover(1);
}
/// Default panics while a ReqDefault container is made
fn making<T: TV>(usable: bool) {
    no_leak_check();
    unsafe { NO_DEFAULT = true; }
    let p = catch(|| drop(T::new()));
    unsafe { NO_DEFAULT = false; }
    check!(p == usable && next() == 1);
    let mut t = T::new();
    t.ins(5, V::new());
    check!(t.gt(5).is_some());
    drop(t);
    all_dropped(1);
    cover(1);
}
/// a function of a lazy operation panics in its n-th call; the containers stay as they were
macro_rules! function { ($D:literal, $X:ty; $how:expr) => {{
    no_leak_check();
    let k = [0; 3].map(|_| key(6 * $D));
    let (mut a, mut b) = (<$X as TV>::new(), <$X as TV>::new());
    let (mut ma, mut mb) = (Log::<8>::new(), Log::<8>::new());
    let first = next();
    for (t, m, k) in [(&mut a, &mut ma, k[0])] { let v = V::new(); m.set(k, v.id); t.ins(k, v); }
    { let v = V::new(); ma.set(k[1], v.id); a.ins(k[1], v); }
    { let v = V::new(); mb.set(k[1], v.id); b.ins(k[1], v); }
    { let v = V::new(); mb.set(k[2], v.id); b.ins(k[2], v); }
    let then = next();
    unsafe { THROW_AT = conc(below(4)); }
    let q = key(6 * $D);
    let mut made: Option<DenseTree<V, $D>> = None;
    let how = if $how > 4 { 2 * conc(below(3)) } else { $how };
    let p = match how {
        0 => catch(|| made = Some(map(&a, |_: &V| { call(); V::new() }).materialize())),
        1 => catch(|| made = Some(multi_map_fold(multi_union([&a, &b].into_iter()), || { call(); V::new() }, |x: V, _: &V| { call(); if x.id & 1 == 0 { x } else { V::new() } }).materialize())),
        2 => catch(|| { let t = map(union(&a, &b), |_: (Option<&V>, Option<&V>)| { call(); V::new() }); let mut n = 0; for (_, v) in HibitTree::iter(&t) { check!(state(v.id) == 1); n += 1; } check!(n == next() - then) }),
        3 => catch(|| { let t = multi_map_fold(multi_intersection([&a, &b].into_iter()), || { call(); V::new() }, |x: V, _: &V| { call(); x }); for (_, v) in HibitTree::iter(&t) { check!(state(v.id) == 1); } }),
        _ => catch(|| { let t = multi_map_fold(multi_union([&a, &b].into_iter()), || { call(); V::new() }, |_: V, _: &V| { call(); V::new() }); let x = t.get(q); check!(x.is_some() == (ma.get(q) != 0 || mb.get(q) != 0)); }),
    };
    unsafe { check!(p == (CALLS == THROW_AT + 1)); THROW_AT = u64::MAX; }
    check!(p == made.is_none() || how > 1);
    if p || how > 1 { all_dropped_or_leaked(then, p && how < 2); }
    let q = key(6 * $D);
    for (t, m) in [(&mut a, &mut ma), (&mut b, &mut mb)] {
        match t.gt(q) { Some(v) => check!(v.id == m.get(q) && state(conc(v.id)) == 1), None => check!(m.get(q) == 0) }
        check!(t.len() as u64 == m.live());
    }
    one(&mut a, &mut ma, INS, q);
    check!(a.gt(q).is_some());
    if let Some(t) = made { check!(t.key_values().0.len() as u64 >= ma.live() - 1); drop(t); }
    drop(a);
    drop(b);
    let mut i = first;
    while i < then { check!(state(i) == 2); i += 1; }
    cover(1);
}} }
/// values an aborted operation created are dropped (a half made container may leak them)
fn all_dropped_or_leaked(first: u64, may_leak: bool) {
    let mut i = first;
    while i < next() { check!(state(i) == 2 || (may_leak && state(i) == 1)); i += 1; }
}
harnesses! {
fn c24_default_dense_d1() { default::<DenseTree<V, 1>>(&[3, INS], &[3], true) }
fn c24_default_dense_d2() { default::<DenseTree<V, 2>>(&[INS], &[3], true) }
fn c24_default_dense_d3() { default::<DenseTree<V, 3>>(&[INS], &[3], false) }
fn c24_default_dense_d4() { default::<DenseTree<V, 4>>(&[INS], &[INS], true) }
fn c24_default_w64_d1() { default::<SV<w64::depth_1>>(&[3, INS], &[3], true) }
fn c24_default_w64_d2() { default::<SV<w64::depth_2>>(&[INS], &[3], true) }
fn c24_default_w64_d4() { default::<SV<w64::depth_4>>(&[INS], &[3], false) }
fn c24_default_w128_d2() { default::<SV<w128::depth_2>>(&[INS], &[3], false) }
fn c24_default_w256_d1() { default::<SV<w256::depth_1>>(&[INS], &[3], false) }
fn c24_default_w256_d2() { default::<SV<w256::depth_2>>(&[INS], &[3], false) }
fn c24_default_def64_d1() { default::<SD<w64::depth_1>>(&[INS], &[3], true) }
fn c24_default_def64_d2() { default::<SD<w64::depth_2>>(&[INS], &[3], true) }
fn c24_replace_dense_d1() { replace::<DenseTree<V, 1>>(&[INS, INS], &[3]) }
fn c24_replace_dense_d2() { replace::<DenseTree<V, 2>>(&[INS, INS], &[REM]) }
fn c24_replace_w64_d1() { replace::<SV<w64::depth_1>>(&[INS, INS], &[3]) }
fn c24_replace_w64_d2() { replace::<SV<w64::depth_2>>(&[INS, INS], &[REM]) }
fn c24_replace_w256_d1() { replace::<SV<w256::depth_1>>(&[INS], &[REM]) }
fn c24_replace_def64_d1() { replace::<SD<w64::depth_1>>(&[INS, INS], &[REM]) }
fn c24_drop_dense_d1() { in_drop::<DenseTree<V, 1>>(&[3, 3, INS]) }
fn c24_drop_dense_d2() { in_drop::<DenseTree<V, 2>>(&[INS, INS]) }
fn c24_drop_dense_d4() { in_drop::<DenseTree<V, 4>>(&[INS, INS]) }
fn c24_drop_w64_d1() { in_drop::<SV<w64::depth_1>>(&[3, 3, INS]) }
fn c24_drop_w64_d2() { in_drop::<SV<w64::depth_2>>(&[INS, INS]) }
fn c24_drop_w128_d1() { in_drop::<SV<w128::depth_1>>(&[INS, INS]) }
fn c24_drop_w256_d2() { in_drop::<SV<w256::depth_2>>(&[INS, INS]) }
fn c24_drop_def64_d1() { in_drop::<SD<w64::depth_1>>(&[INS, INS]) }
fn c24_drop_def256_d1() { in_drop::<SD<w256::depth_1>>(&[INS]) }
fn c24_making_def64_d1() { making::<SD<w64::depth_1>>(true) }
fn c24_making_def64_d2() { making::<SD<w64::depth_2>>(true) }
fn c24_making_def256_d1() { making::<SD<w256::depth_1>>(true) }
fn c24_making_w64_d1() { making::<SV<w64::depth_1>>(false) }
fn c24_making_dense_d2() { making::<DenseTree<V, 2>>(false) }
fn c24_map_d1() { function!(1, DenseTree<V, 1>; 0) }
fn c24_map_d2() { function!(2, DenseTree<V, 2>; 0) }
fn c24_map_s1() { function!(1, SV<w64::depth_1>; 0) }
fn c24_fold_d1() { function!(1, DenseTree<V, 1>; 1) }
fn c24_fold_d2() { function!(2, DenseTree<V, 2>; 1) }
fn c24_iter_d1() { function!(1, DenseTree<V, 1>; 2) }
fn c24_iter_s2() { function!(2, SV<w64::depth_2>; 2) }
fn c24_multi_d1() { function!(1, DenseTree<V, 1>; 3) }
fn c24_multi_d2() { function!(2, DenseTree<V, 2>; 3) }
fn c24_get_d2() { function!(2, DenseTree<V, 2>; 4) }
fn c24_get_s2() { function!(2, SV<w64::depth_2>; 4) }
fn c24t_default_dense_d2() { default::<DenseTree<V, 2>>(&[INS, INS], &[3], true) }
fn c24t_default_w64_d2() { default::<SV<w64::depth_2>>(&[INS, INS], &[3], true) }
}

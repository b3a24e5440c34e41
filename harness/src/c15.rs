//! C15: every value is dropped exactly once, all memory is released (the engine checks for leaks
//! at the end of every path).
use crate::{check, harnesses};
use crate::model::{Log, INS, REM, GOI};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};

const MAX: usize = 100;
/// of each value: 0 not created, 1 alive, 2 dropped
static mut STATE: [u8; MAX] = [0; MAX];
static mut NEXT: usize = 1;
fn next() -> u64 { unsafe { NEXT as u64 } }
fn state(i: u64) -> u8 { unsafe { STATE[i as usize] } }
/// A value with an identity that owns memory.
pub struct V { id: u64, b: Box<u64> }
impl V {
    fn new() -> V { unsafe { let id = NEXT; NEXT += 1; check!(STATE[id] == 0); STATE[id] = 1; V { id: id as u64, b: Box::new(id as u64 + 7) } } }
}
impl Default for V { fn default() -> V { V::new() } }
impl Drop for V {
    fn drop(&mut self) {
        unsafe {
            let id = conc(self.id) as usize;
            check!(id < MAX);
            check!(STATE[id] == 1);
            check!(*self.b == self.id + 7);
            STATE[id] = 2;
        }
    }
}
pub trait TV { const BITS: u32; fn new() -> Self; fn ins(&mut self, k: usize, v: V); fn rem(&mut self, k: usize) -> Option<V>; fn goi(&mut self, k: usize) -> &mut V; fn gm(&mut self, k: usize) -> Option<&mut V>; fn gt(&self, k: usize) -> Option<&V>; fn kvm(&mut self) -> &mut [V]; }
macro_rules! tv { ($($t:ty, $b:literal, |$s:ident, $k:ident| $gm:expr;)*) => { $( impl TV for $t {
    const BITS: u32 = $b;
    fn new() -> Self { Default::default() }
    fn ins(&mut self, k: usize, v: V) { self.insert(k, v) }
    fn rem(&mut self, k: usize) -> Option<V> { self.remove(k) }
    fn goi(&mut self, k: usize) -> &mut V { self.get_or_insert(k) }
    fn gm(&mut self, $k: usize) -> Option<&mut V> { let $s = self; $gm }
    fn gt(&self, k: usize) -> Option<&V> { self.get(k) }
    fn kvm(&mut self) -> &mut [V] { self.key_values_mut().1 }
} )* } }
fn through_kv<const D: usize>(t: &mut DenseTree<V, D>, k: usize) -> Option<&mut V> where hibit_tree::const_utils::ConstUsize<D>: hibit_tree::const_utils::ConstInteger {
    let (ks, vs) = t.key_values_mut();
    let i = ks.iter().position(|x| *x == k)?;
    Some(&mut vs[i])
}
type R = ReqDefault;
type SV<L> = SparseTree<L, V>;
type SD<L> = SparseTree<L, V, R>;
tv! {
    DenseTree<V, 1>, 6, |s, k| through_kv(s, k);
    DenseTree<V, 2>, 12, |s, k| through_kv(s, k);
    DenseTree<V, 3>, 18, |s, k| through_kv(s, k);
    DenseTree<V, 4>, 24, |s, k| through_kv(s, k);
    DenseTree<V, 6>, 36, |s, k| through_kv(s, k);
    SV<w64::depth_1>, 6, |s, k| s.get_mut(k);
    SV<w64::depth_2>, 12, |s, k| s.get_mut(k);
    SV<w64::depth_4>, 24, |s, k| s.get_mut(k);
    SV<w128::depth_2>, 14, |s, k| s.get_mut(k);
    SV<w256::depth_1>, 8, |s, k| s.get_mut(k);
    SV<w256::depth_2>, 16, |s, k| s.get_mut(k);
    SD<w64::depth_1>, 6, |s, k| s.get_mut(k);
    SD<w64::depth_2>, 12, |s, k| s.get_mut(k);
    SD<w256::depth_1>, 8, |s, k| s.get_mut(k);
}
const WRITE: u64 = 3;
const ANY: u64 = 4;
/// exactly the contained values are alive; `extra` lowest ids belong to the container itself
fn alive<const N: usize>(m: &Log<N>, first: u64) {
    let mut id = first;
    while id < next() {
        let mut held = false;
        let mut i = 0;
        while i < m.n { held |= m.last(i) & (m.v[i] == id); i += 1; }
        check!((state(id) == 1) == held);
        id += 1;
    }
}
fn run<T: TV, const N: usize>(t: &mut T, m: &mut Log<N>, kinds: &[u64], first: u64, mut key: impl FnMut() -> usize) {
    for &kd in kinds {
        let kd = if kd == ANY { conc(below(4)) } else { kd };
        let k = key();
        if kd == INS { let v = V::new(); let id = v.id; t.ins(k, v); m.set(k, id); }
        else if kd == REM {
            match t.rem(k) { Some(v) => { check!(v.id == m.get(k)); check!(state(conc(v.id)) == 1); m.set(k, 0); } None => check!(m.get(k) == 0) }
        } else if kd == GOI {
            let fresh = next();
            let id = t.goi(k).id;
            let had = m.get(k);
            check!(id == ite(had != 0, had, fresh));
            check!(next() == fresh + ite(had != 0, 0, 1));
            m.set(k, id);
        } else {
            match t.gm(k) { Some(r) => { check!(m.get(k) == r.id); *r = V::new(); let id = r.id; m.set(k, id); } None => check!(m.get(k) == 0) }
        }
        alive(m, first);
    }
}
/// a history, then drop
fn drops<T: TV>(kinds: &[u64]) {
    let mut t = T::new();
    let first = next();
    check!(first <= 2);
    let mut m = Log::<8>::new();
    run(&mut t, &mut m, kinds, first, || key(T::BITS));
    let q = key(T::BITS);
    match t.gt(q) { Some(v) => check!(v.id == m.get(q) && *v.b == v.id + 7), None => check!(m.get(q) == 0) }
    if first == 2 { check!(state(1) == 1); }
    drop(t);
    let mut i = 1;
    while i < next() { check!(state(i) == 2); i += 1; }
    cover(1);
}
/// n values in one node, then operations on it
fn filled<T: TV>(n: usize, sh: u32, kinds: &[u64]) {
    let mut t = T::new();
    let first = next();
    let mut m = Log::<80>::new();
    for i in 0..n { let v = V::new(); m.set(i << sh, v.id); t.ins(i << sh, v); }
    run(&mut t, &mut m, kinds, first, || key(3) << sh);
    drop(t);
    let mut i = 1;
    while i < next() { check!(state(i) == 2); i += 1; }
    cover(1);
}
/// a materialized container and what it was made from
macro_rules! copied { ($D:literal, $X:ty; $how:expr, $kinds:expr) => {{
    let k = [0; 3].map(|_| key(6 * $D));
    let (mut a, mut b) = (<$X as TV>::new(), <$X as TV>::new());
    a.ins(k[0], V::new());
    a.ins(k[1], V::new());
    b.ins(k[1], V::new());
    b.ins(k[2], V::new());
    let first = next();
    let mut m = Log::<8>::new();
    let mut t: DenseTree<V, $D> = match $how {
        0 => map(&a, |_: &V| V::new()).materialize(),
        1 => map(intersection(&a, &b), |_: (&V, &V)| V::new()).materialize(),
        2 => map(union(&a, &b), |_: (Option<&V>, Option<&V>)| V::new()).materialize(),
        // the accumulator is passed by value through init and the function
        _ => multi_map_fold(multi_union([&a, &b].into_iter()), || V::new(), |x: V, _: &V| if flag() { x } else { V::new() }).materialize(),
    };
    for i in 0..3 { let id = match t.gt(k[i]) { Some(v) => v.id, None => 0 }; m.set(k[i], id); }
    alive(&m, first);
    run(&mut t, &mut m, $kinds, first, || key(6 * $D));
    if flag() { drop(a); drop(t); drop(b); } else { drop(t); drop(b); drop(a); }
    let mut i = 1;
    while i < next() { check!(state(i) == 2); i += 1; }
    cover(1);
}} }
/// Values without an identity, of any size: as many are alive as are contained.
static mut MADE: u64 = 0;
static mut DROPPED: u64 = 0;
fn live() -> u64 { unsafe { MADE - DROPPED } }
pub trait Pay: Default {}
impl Pay for () {}
impl Pay for u8 {}
impl Pay for [u64; 11] {}
#[derive(Default)]
#[repr(align(64))]
pub struct A64;
impl Pay for A64 {}
pub struct C<P: Pay>(#[allow(dead_code)] P);
impl<P: Pay> C<P> { fn new() -> Self { unsafe { MADE += 1; } C(P::default()) } }
impl<P: Pay> Default for C<P> { fn default() -> Self { C::new() } }
impl<P: Pay> Drop for C<P> { fn drop(&mut self) { unsafe { check!(DROPPED < MADE); DROPPED += 1; } } }
macro_rules! counted { ($T:ty, $bits:literal, $fill:expr, $kinds:expr) => {{
    {
        let mut t: $T = Default::default();
        let base = live();
        check!(base <= 1);
        let mut m = Log::<80>::new();
        for i in 0..$fill { t.insert(i as usize, C::new()); m.set(i as usize, 1); }
        for &kd in &$kinds {
            let kd = if kd == 9 { conc(below(3)) } else { kd };
            let k = key($bits);
            match kd {
                0 => { t.insert(k, C::new()); m.set(k, 1); }
                1 => { let r = t.remove(k); check!(r.is_some() == (m.get(k) != 0)); check!(live() == base + m.live()); drop(r); m.set(k, 0); }
                _ => { t.get_or_insert(k); m.set(k, 1); }
            }
            check!(live() == base + m.live());
        }
        let q = key($bits);
        check!(t.get(q).is_some() == (m.get(q) != 0));
    }
    check!(live() == 0);
    cover(1);
}} }
/// materialized from a tree of any exactness with up to two indices, of which some may have gone
fn made<const N: usize, const X: bool, P: Pay + 'static>(kinds: &[u64]) where hibit_tree::const_utils::ConstUsize<N>: hibit_tree::const_utils::ConstInteger {
    use crate::mt::{MT, M64, two};
    let (q, c) = two::<M64, N>();
    let a = MT::<M64, N, 2, X>::of(1, q, c);
    let n = (a.at(q[0]) != 0) as u64 + ((q[0] != q[1]) & (a.at(q[1]) != 0)) as u64;
    {
        let mut t: DenseTree<C<P>, N> = map(a, |_: u64| C::new()).materialize();
        check!(live() == n);
        for &kd in kinds {
            let k = if flag() { q[1] } else { key(6 * N as u32) };
            if kd == INS { t.insert(k, C::new()); } else { drop(t.remove(k)); check!(t.get(k).is_none()); }
        }
        check!(live() == t.key_values().1.len() as u64);
    }
    check!(live() == 0);
    cover(1);
}
/// items that lazy operations create and the caller does not keep
fn lazy() {
    let k = [0; 3].map(|_| key(6));
    let mut a = DenseTree::<V, 1>::default();
    a.insert(k[0], V::new());
    a.insert(k[1], V::new());
    let first = next();
    {
        let t = map(&a, |_: &V| V::new());
        let r = t.get(k[2]);
        check!(next() == first + r.is_some() as u64);
        for (_, v) in HibitTree::iter(&t) { check!(state(v.id) == 1); }
        let mut it = HibitTree::iter(&t);
        let x = Iterator::next(&mut it);
        check!(x.is_some());
        drop(it);
        drop(t);
        check!(state(x.unwrap().1.id) == 1);
    }
    let mut i = first;
    while i < next() { check!(state(i) == 2); i += 1; }
    check!(state(2) == 1);
    drop(a);
    check!(state(2) == 2);
    cover(1);
}
harnesses! {
fn c15_any3_dense_d1() { drops::<DenseTree<V, 1>>(&[ANY, ANY, ANY]) }
fn c15_any3_dense_d2() { drops::<DenseTree<V, 2>>(&[ANY, ANY, ANY]) }
fn c15_iir_dense_d3() { drops::<DenseTree<V, 3>>(&[INS, INS, REM]) }
fn c15_any2_dense_d4() { drops::<DenseTree<V, 4>>(&[ANY, ANY]) }
fn c15_any2_dense_d6() { drops::<DenseTree<V, 6>>(&[ANY, ANY]) }
fn c15_iirr_dense_d1() { drops::<DenseTree<V, 1>>(&[INS, INS, REM, REM]) }
fn c15_irii_dense_d2() { drops::<DenseTree<V, 2>>(&[INS, REM, INS, INS]) }
fn c15_any3_w64_d1() { drops::<SV<w64::depth_1>>(&[ANY, ANY, ANY]) }
fn c15_any3_w64_d2() { drops::<SV<w64::depth_2>>(&[ANY, ANY, ANY]) }
fn c15_any3_w64_d4() { drops::<SV<w64::depth_4>>(&[ANY, ANY, ANY]) }
fn c15_any3_w128_d2() { drops::<SV<w128::depth_2>>(&[ANY, ANY, ANY]) }
fn c15_any3_w256_d1() { drops::<SV<w256::depth_1>>(&[ANY, ANY, ANY]) }
fn c15_any3_w256_d2() { drops::<SV<w256::depth_2>>(&[ANY, ANY, ANY]) }
fn c15_iirr_w64_d1() { drops::<SV<w64::depth_1>>(&[INS, INS, REM, REM]) }
fn c15_any3_def64_d1() { drops::<SD<w64::depth_1>>(&[ANY, ANY, ANY]) }
fn c15_any3_def64_d2() { drops::<SD<w64::depth_2>>(&[ANY, ANY, ANY]) }
fn c15_any3_def256_d1() { drops::<SD<w256::depth_1>>(&[ANY, ANY, ANY]) }
fn c15_none_dense() { drops::<DenseTree<V, 3>>(&[]) }
fn c15_none_sparse() { drops::<SV<w64::depth_2>>(&[]) }
fn c15_none_def() { drops::<SD<w64::depth_2>>(&[]) }
fn c15_fill7_dense_d2() { filled::<DenseTree<V, 2>>(7, 0, &[ANY]) }
fn c15_fill8_up_dense_d2() { filled::<DenseTree<V, 2>>(8, 6, &[ANY]) }
fn c15_fill8_w64_d2() { filled::<SV<w64::depth_2>>(8, 6, &[ANY]) }
fn c15_map_d1() { copied!(1, DenseTree<V, 1>; 0, &[ANY]) }
fn c15_map_d2() { copied!(2, DenseTree<V, 2>; 0, &[REM]) }
fn c15_map_s2() { copied!(2, SV<w64::depth_2>; 0, &[INS]) }
fn c15_inter_d1() { copied!(1, DenseTree<V, 1>; 1, &[ANY]) }
fn c15_inter_d2() { copied!(2, DenseTree<V, 2>; 1, &[]) }
fn c15_union_d2() { copied!(2, DenseTree<V, 2>; 2, &[]) }
fn c15_fold_d1() { copied!(1, DenseTree<V, 1>; 3, &[]) }
fn c15_lazy() { lazy() }
fn c15_zst_dense_d1() { counted!(DenseTree<C<()>, 1>, 6, 0, [9, 9, 9]) }
fn c15_zst_dense_d2() { counted!(DenseTree<C<()>, 2>, 12, 0, [9, 9, 9]) }
fn c15_zst_dense_d3() { counted!(DenseTree<C<()>, 3>, 18, 0, [9, 9]) }
fn c15_zst_w64_d1() { counted!(SparseTree<w64::depth_1, C<()>>, 6, 0, [9, 9, 9]) }
fn c15_zst_w64_d2() { counted!(SparseTree<w64::depth_2, C<()>>, 12, 0, [9, 9, 9]) }
fn c15_zst_w256_d2() { counted!(SparseTree<w256::depth_2, C<()>>, 16, 0, [9, 9]) }
fn c15_zst_def_d2() { counted!(SparseTree<w64::depth_2, C<()>, R>, 12, 0, [9, 9, 9]) }
fn c15_byte_dense_d2() { counted!(DenseTree<C<u8>, 2>, 12, 0, [9, 9, 9]) }
fn c15_byte_w64_d2() { counted!(SparseTree<w64::depth_2, C<u8>>, 12, 0, [9, 9, 9]) }
fn c15_byte_def_d1() { counted!(SparseTree<w64::depth_1, C<u8>, R>, 6, 0, [9, 9, 9]) }
fn c15_big_dense_d1() { counted!(DenseTree<C<[u64; 11]>, 1>, 6, 0, [9, 9, 9]) }
fn c15_big_w128_d1() { counted!(SparseTree<w128::depth_1, C<[u64; 11]>>, 7, 0, [9, 9, 9]) }
fn c15_al_dense_d1() { counted!(DenseTree<C<A64>, 1>, 6, 0, [9, 9, 9]) }
fn c15_al_def_d2() { counted!(SparseTree<w64::depth_2, C<A64>, R>, 12, 0, [9, 9]) }
fn c15_zst_fill_dense() { counted!(DenseTree<C<()>, 2>, 4, 9, [9, 1]) }
fn c15_zst_fill_w64() { counted!(SparseTree<w64::depth_2, C<()>>, 4, 9, [9, 1]) }
fn c15_made_x_d1() { made::<1, true, u8>(&[INS]) }
fn c15_made_n_d1() { made::<1, false, ()>(&[REM]) }
fn c15_made_x_d2() { made::<2, true, ()>(&[INS]) }
fn c15_made_n_d2() { made::<2, false, u8>(&[REM]) }
fn c15_made_x_d3() { made::<3, true, u8>(&[]) }
fn c15_made_n_d3() { made::<3, false, [u64; 11]>(&[]) }
fn c15_made_n_d4() { made::<4, false, ()>(&[]) }
fn c15_made_x_d5() { made::<5, true, u8>(&[REM]) }
fn c15t_made_n_d5() { made::<5, false, u8>(&[REM]) }
fn c15t_any4_dense_d2() { drops::<DenseTree<V, 2>>(&[ANY, ANY, ANY, ANY]) }
fn c15t_any4_w64_d2() { drops::<SV<w64::depth_2>>(&[ANY, ANY, ANY, ANY]) }
fn c15t_any3_dense_d3() { drops::<DenseTree<V, 3>>(&[ANY, ANY, ANY]) }
}

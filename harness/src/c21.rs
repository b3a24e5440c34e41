//! C21: unchecked access agrees with checked access.
use crate::{check, harnesses};
use crate::mt::{MT, M64, M128, M256, Enc, seq, enc, paths};
use crate::model::*;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
type S<L> = SparseTree<L, u64>;
fn ix<T: HibitTree>(_: &T, q: usize) -> Index<T::LevelMask, T::LevelCount> { unsafe { Index::new_unchecked(q) } }
/// contents of any history; every index
fn cont<T: Tree + HibitTree>(kinds: &[u64])
where for<'a> T: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64> {
    let mut t = T::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, kinds, || tkey::<T>());
    let q = tkey::<T>();
    let w = m.get(q);
    // an index made without a check is the same index
    check!(v0(HibitTree::get(&t, ix(&t, q))) == w);
    check!(usize::from(ix(&t, q)) == q);
    if w != 0 {
        check!(unsafe { *t.get_unchecked(q) } == w);
        check!(unsafe { *t.get_unchecked(usize::from(ix(&t, q))) } == w);
        check!(unsafe { t.get_unchecked(q) as *const u64 } == HibitTree::get(&t, q).unwrap() as *const u64);
    }
    same(&t, &m);
    cover(1);
}
/// get_mut_unchecked; nothing else changes
macro_rules! mutu { ($T:ty, $kinds:expr) => {{
    let mut t = <$T as Tree>::new();
    let mut m = Log::<8>::new();
    history(&mut t, &mut m, &$kinds, || tkey::<$T>());
    let q = tkey::<$T>();
    if m.get(q) != 0 {
        let p = v0(t.get(q));
        let i = ix(&t, q);
        let r = unsafe { match conc(below(2)) { 0 => t.get_mut_unchecked(q), _ => t.get_mut_unchecked(i.into()) } };
        check!(*r == p);
        *r = 77;
        m.set(q, 77);
        let x = t.get_mut(i);
        check!(match x { Some(x) => *x == 77, None => false });
        check!(unsafe { *t.get_unchecked(q) } == 77);
    }
    same(&t, &m);
    let n = t.kv().0.len() as u64;
    check!(n == m.live());
    cover(1);
}} }
/// every other way of the container to take an index, by an index made without a check
macro_rules! byidx { ($T:ty $(, $gm:ident)?) => {{
    let mut t = <$T as Tree>::new();
    let mut m = Log::<8>::new();
    let k = tkey::<$T>();
    let i = ix(&t, k);
    let how = conc(below(4));
    if flag() { t.insert(k, 5); m.set(k, 5); }
    match how {
        0 => { t.insert(i, 6); m.set(k, 6); }
        1 => { check!(o0(t.remove(i)) == m.get(k)); m.set(k, 0); }
        2 => { let r = t.get_or_insert(i); check!(*r == m.get(k)); *r = 8; m.set(k, 8); }
        _ => { $( match t.$gm(i) { Some(r) => { check!(*r == m.get(k)); *r = 9; m.set(k, 9); } None => check!(m.get(k) == 0) } )? }
    }
    same(&t, &m);
    cover(1);
}} }
/// lazy operations: the checked item, if there is one, is the unchecked one
macro_rules! both_ways { ($t:expr, $enc:path, $q:expr) => {{
    match $t { t => {
    let i = ix(&t, $q);
    let c = match t.get($q) { Some(d) => $enc(d) | 1 << 63, None => 0 };
    let ci = match t.get(i) { Some(d) => $enc(d) | 1 << 63, None => 0 };
    check!(c == ci);
    if c != 0 {
        check!($enc(unsafe { t.get_unchecked($q) }) | 1 << 63 == c);
        check!($enc(unsafe { t.get_unchecked(i.into()) }) | 1 << 63 == c);
        // again: nothing was changed
        check!(match t.get($q) { Some(d) => $enc(d) | 1 << 63, None => 0 } == c);
        cover(2);
    } else { cover(3); }
}}}} }
fn f1(x: u64) -> u64 { x.wrapping_mul(5) ^ 3 }
fn seq2<I: Iterator<Item: Iterator<Item: Enc>>>(it: I) -> u64 { let mut a = 1; for x in it { a = crate::mt::then(a, seq(x)); } a | 1 }
macro_rules! ops { ($a:ident, $I:ty, $q:expr) => {
    match conc(below(12)) {
        0 => both_ways!(intersection(&$a[0], &$a[1]), enc, $q),
        1 => both_ways!(union(&$a[0], &$a[1]), enc, $q),
        2 => both_ways!(map(&$a[0], |x: $I| f1(enc(x))), enc, $q),
        3 => both_ways!(multi_intersection($a.iter()), seq, $q),
        4 => both_ways!(multi_union($a.iter()), seq, $q),
        5 => both_ways!(multi_map_fold(multi_intersection($a.iter()), || 1u64, |x: u64, y: $I| crate::mt::then(x, enc(y))), enc, $q),
        6 => both_ways!(multi_map_fold(multi_union($a.iter()), || 1u64, |x: u64, y: $I| crate::mt::then(x, enc(y))), enc, $q),
        7 => both_ways!(union(intersection(&$a[0], &$a[1]), &$a[2]), enc, $q),
        8 => both_ways!(intersection(union(&$a[0], &$a[1]), map(&$a[2], |x: $I| f1(enc(x)))), enc, $q),
        9 => both_ways!(multi_union([union(&$a[0], &$a[1]), union(&$a[2], &$a[1])].iter()), seq, $q),
        10 => both_ways!(multi_intersection([union(&$a[0], &$a[1]), union(&$a[2], &$a[1])].iter()), seq, $q),
        _ => both_ways!(multi_union([multi_intersection($a[..2].iter()), multi_intersection($a[1..].iter())].iter()), seq2, $q),
    }
} }
fn lazy<M: BitBlock, const DD: usize, const X: bool>() where ConstUsize<DD>: ConstInteger {
    let q = paths::<M, DD, 1>();
    if crate::mt::lb::<M>() as usize * DD == 64 { assume(q[0] != usize::MAX); }
    let a: [MT<M, DD, 1, X>; 3] = std::array::from_fn(|i| MT::new(i as u64, q));
    ops!(a, u64, q[0]);
    cover(1);
}
/// over containers
macro_rules! real { ($T:ty) => {{
    let mut a: [$T; 3] = std::array::from_fn(|_| <$T as Tree>::new());
    let k: [usize; 2] = std::array::from_fn(|_| tkey::<$T>());
    a[0].ins(k[0], 11); a[0].ins(k[1], 12);
    a[1].ins(k[1], 21);
    a[2].ins(k[0], 31); a[2].ins(k[1], 32);
    if flag() { a[2].rem(k[0]); }
    let q = tkey::<$T>();
    ops!(a, &u64, q);
    cover(1);
}} }
harnesses! {
fn c21_dense1() { cont::<D<1>>(&[3, 3, 3]) }
fn c21_dense2() { cont::<D<2>>(&[3, 3, 3]) }
fn c21_dense3() { cont::<D<3>>(&[INS, INS, REM]) }
fn c21_dense4() { cont::<D<4>>(&[3, 3]) }
fn c21_dense5() { cont::<D<5>>(&[3, 3]) }
fn c21_dense6() { cont::<D<6>>(&[3, 3]) }
fn c21_dense7() { cont::<D<7>>(&[3, 3]) }
fn c21_dense8() { cont::<D<8>>(&[3, 3]) }
fn c21_dense9() { cont::<D<9>>(&[3, 3]) }
fn c21_w64_1() { cont::<S1>(&[3, 3, 3]) }
fn c21_w64_2() { cont::<S2>(&[3, 3, 3]) }
fn c21_w64_3() { cont::<S3>(&[3, 3]) }
fn c21_w64_5() { cont::<S<w64::depth_5>>(&[3, 3]) }
fn c21_w64_8() { cont::<S<w64::depth_8>>(&[3, 3]) }
fn c21_w128_1() { cont::<S128_1>(&[3, 3]) }
fn c21_w128_2() { cont::<S128_2>(&[3, 3]) }
fn c21_w128_4() { cont::<S<w128::depth_4>>(&[3, 3]) }
fn c21_w128_8() { cont::<S<w128::depth_8>>(&[3, 3]) }
fn c21_w256_1() { cont::<S256_1>(&[3, 3]) }
fn c21_w256_2() { cont::<S256_2>(&[3, 3]) }
fn c21_w256_8() { cont::<S<w256::depth_8>>(&[3, 3]) }
fn c21_mut_w64_1() { mutu!(S1, [3, 3, 3]) }
fn c21_mut_w64_2() { mutu!(S2, [3, 3, 3]) }
fn c21_mut_w64_4() { mutu!(S4, [3, 3]) }
fn c21_mut_w64_8() { mutu!(S<w64::depth_8>, [3, 3]) }
fn c21_mut_w128_1() { mutu!(S128_1, [3, 3]) }
fn c21_mut_w128_3() { mutu!(S<w128::depth_3>, [3, 3]) }
fn c21_mut_w256_1() { mutu!(S256_1, [3, 3]) }
fn c21_mut_w256_2() { mutu!(S256_2, [3, 3]) }
fn c21_idx_dense2() { byidx!(D<2>) }
fn c21_idx_dense9() { byidx!(D<9>) }
fn c21_idx_w64_2() { byidx!(S2, get_mut) }
fn c21_idx_w128_3() { byidx!(S<w128::depth_3>, get_mut) }
fn c21_idx_w256_8() { byidx!(S<w256::depth_8>, get_mut) }
fn c21_lazy_m64_d1() { lazy::<M64, 1, true>() }
fn c21_lazy_m64_d2() { lazy::<M64, 2, false>() }
fn c21_lazy_m64_d4() { lazy::<M64, 4, true>() }
fn c21_lazy_m64_d9() { lazy::<M64, 9, false>() }
fn c21_lazy_m128_d2() { lazy::<M128, 2, true>() }
fn c21_lazy_m256_d1() { lazy::<M256, 1, true>() }
fn c21_lazy_m256_d3() { lazy::<M256, 3, false>() }
fn c21_real_d1() { real!(D<1>) }
fn c21_real_d2() { real!(D<2>) }
fn c21_real_s2() { real!(S2) }
fn c21_real_s128() { real!(S128_1) }
fn c21_real_s256() { real!(S256_1) }
fn c21t_real_d3() { real!(D<3>) }
fn c21t_real_s128_2() { real!(S128_2) }
}

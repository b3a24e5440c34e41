//! C22: the item iterators of multi operations.
use crate::{check, harnesses};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S128_1, S256_1};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::utils::LendingIterator;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};

/// size_hint encloses what is left; exactly with `exact`
fn hint(h: (usize, Option<usize>), left: usize, exact: bool) {
    check!(h.0 <= left);
    check!(match h.1 { Some(h) => left <= h, None => true });
    if exact { check!(h.0 == left); check!(h.1 == Some(left)); }
}
macro_rules! len { (exact $i:expr, $n:expr) => { check!($i.len() == $n) }; (any $i:expr, $n:expr) => { }; }
macro_rules! is { (exact) => { true }; (any) => { false }; }
/// every mix of next with one final way to consume the rest; $l: what is to come
macro_rules! mix { ($i:expr, $l:expr, $n:expr, $e:ident) => {{
    let mut it = $i;
    let (l, n): (&[u64], usize) = (&$l, $n);
    let nexts = conc(below(n as u64 + 2)) as usize;
    let mut i = 0;
    hint(it.size_hint(), n, is!($e));
    while i < nexts {
        len!($e it, n - i);
        let x = it.next();
        if i < n { check!(x.enc() == l[i]); i += 1; } else { check!(x.is_none()); break; }
        hint(it.size_hint(), n - i, is!($e));
    }
    len!($e it, n - i);
    match conc(below(5)) {
        0 => { let mut j = i; let r = it.fold(1u64, |a, x| { check!(j < n && x.enc() == l[j]); j += 1; a * 3 }); check!(j == n && r == [1, 3, 9, 27, 81, 243, 729][n - i]); }
        1 => { let mut j = i; it.for_each(|x| { check!(j < n && x.enc() == l[j]); j += 1; }); check!(j == n); }
        2 => { check!(it.count() == n - i); }
        3 => { let x = it.nth(1).enc(); check!(x == if i + 1 < n { l[i + 1] } else { 0 }); let x = it.last().enc(); check!(x == if i + 2 < n { l[n - 1] } else { 0 }); }
        _ => { while let Some(x) = it.next() { check!(i < n && x.enc() == l[i]); i += 1; } check!(i == n); check!(it.next().is_none()); check!(it.next().is_none()); hint(it.size_hint(), 0, is!($e)); len!($e it, 0); }
    }
}} }
/// the values there are, in order (makes a path per set of trees that have one)
fn list<const T: usize>(v: [u64; T]) -> ([u64; T], usize) {
    let (mut l, mut n) = ([0; T], 0);
    let mut i = 0;
    while i < T { if conc((v[i] != 0) as u64) != 0 { l[n] = v[i]; n += 1; } i += 1; }
    (l, n)
}
macro_rules! at { ($T:ident, $op:ident, $all:literal, $un:ident, $cu:ident, $a:ident, $q:ident, $it:expr, $which:expr) => {{
    let it = $it;
    let mut v = [0u64; $T];
    let mut m = 0;
    for x in it.clone() { v[m] = x.want(0); m += 1; }
    let (l, n) = list(v);
    let there = if $all { n == m && m > 0 } else { n > 0 };
    let t = $op(it);
    match $which {
        0 => { let d = t.get($q[0]); check!(d.is_some() == there); if let Some(i) = d { mix!(i, l, n, exact) } }
        1 => if there { mix!(unsafe { t.get_unchecked($q[0]) }, l, n, $un) },
        2 | 3 => {
            let mut c = cur(&t);
            steps2(&t, &mut c, ConstUsize::<0>, $q[0]);
            let i = low(&t, $q[0]);
            if $which == 2 { let d = unsafe { c.data(&t, i) }; check!(d.is_some() == there); if let Some(i) = d { mix!(i, l, n, $cu) } }
            else if there { mix!(unsafe { c.data_unchecked(&t, i) }, l, n, $cu) }
        }
        _ => {
            let mut it = t.iter();
            match LendingIterator::next(&mut it) { Some((k, i)) => { check!(there && k == $q[0]); mix!(i, l, n, $cu) } None => check!(!there) }
            check!(LendingIterator::next(&mut it).is_none());
        }
    }
    cover(1);
}} }
fn steps2<'a, T: HibitTree, N: ConstInteger>(t: &'a T, c: &mut <T as HibitTreeTypes<'a>>::Cursor, n: N, q: usize) {
    let l = <T as HibitTree>::LevelMask::SIZE.ilog2() as usize;
    let d = <T::LevelCount as ConstInteger>::VALUE;
    let i = if N::VALUE == 0 { 0 } else { (q >> (l * (d - N::VALUE))) & ((1 << l) - 1) };
    unsafe { c.select_level_node(t, n, i) };
    if N::VALUE + 1 < d { steps2::<T, N::Inc>(t, c, n.inc(), q) }
}
/// the library takes any cloneable iterator over the trees
macro_rules! with_iter { ($T:ident, $op:ident, $all:literal, $un:ident, $cu:ident, $a:ident, $q:ident) => {{
    let which = conc(below(5));
    match conc(below(5)) {
        0 => at!($T, $op, $all, $un, $cu, $a, $q, $a.iter(), which),
        1 => at!($T, $op, $all, $un, $cu, $a, $q, $a.iter().rev(), which),
        2 => at!($T, $op, $all, $un, $cu, $a, $q, $a.iter().filter(|x| x.id != 1), which),
        3 => at!($T, $op, $all, $un, $cu, $a, $q, $a.iter().skip(1).chain($a.iter().take(1)), which),
        _ => at!($T, $op, $all, $un, $cu, $a, $q, $a.iter().flat_map(|x| std::iter::once(x)), which),
    }
}} }
fn mi<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let a: [MT<M, D, 1, X>; T] = std::array::from_fn(|i| MT::of(i as u64, q, 0));
    with_iter!(T, multi_intersection, true, exact, exact, a, q)
}
fn mu<M: BitBlock, const D: usize, const X: bool, const T: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let a: [MT<M, D, 1, X>; T] = std::array::from_fn(|i| MT::of(i as u64, q, 0));
    with_iter!(T, multi_union, false, any, any, a, q)
}
/// containers; any two trees share an index or not
fn real<A: Tree + HibitTree + hibit_tree::utils::Borrowable<Borrowed = A>>(w: u32)
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, A: RegularHibitTree {
    let mut a = [A::new(), A::new(), A::new()];
    let q = key(w);
    let mut v = [0; 3];
    let mut i = 0;
    while i < 3 { let k = key(w); a[i].ins(k, 21 + i as u64); v[i] = ite(k == q, 21 + i as u64, 0); i += 1; }
    let (l, n) = list(v);
    match conc(below(4)) {
        0 => { let t = multi_union(a.iter()); match t.get(q) { Some(d) => { check!(n > 0); mix!(d, l, n, exact) } None => check!(n == 0) } }
        1 => { let t = multi_union(a.iter()); if n > 0 { mix!(unsafe { t.get_unchecked(q) }, l, n, any) } }
        2 => { let t = multi_intersection(a.iter()); match t.get(q) { Some(d) => { check!(n == 3); mix!(d, l, n, exact) } None => check!(n < 3) } }
        _ => { let t = multi_intersection(a.iter()); if n == 3 { mix!(unsafe { t.get_unchecked(q) }, l, n, exact) } }
    }
    cover(1);
}
harnesses! {
fn c22_mi_m64_d1_n1() { mi::<M64, 1, true, 1>() }
fn c22_mi_m64_d1_n2() { mi::<M64, 1, true, 2>() }
fn c22_mi_m64_d1_n3() { mi::<M64, 1, false, 3>() }
fn c22_mi_m64_d2_n3() { mi::<M64, 2, true, 3>() }
fn c22_mu_m64_d1_n1() { mu::<M64, 1, true, 1>() }
fn c22_mu_m64_d1_n3() { mu::<M64, 1, false, 3>() }
fn c22_mu_m64_d2_n3() { mu::<M64, 2, true, 3>() }
fn c22_mi_m64_d3_n2() { mi::<M64, 3, false, 2>() }
fn c22_mi_m128_d1_n3() { mi::<M128, 1, true, 3>() }
fn c22_mi_m256_d1_n2() { mi::<M256, 1, false, 2>() }
fn c22_mi_m64_d1_n4() { mi::<M64, 1, true, 4>() }
fn c22_mu_m64_d3_n2() { mu::<M64, 3, false, 2>() }
fn c22_mu_m128_d1_n3() { mu::<M128, 1, true, 3>() }
fn c22_mu_m256_d2_n2() { mu::<M256, 2, false, 2>() }
fn c22_mu_m64_d1_n4() { mu::<M64, 1, true, 4>() }
fn c22_real_d1() { real::<Dn<1>>(6) }
fn c22_real_d2() { real::<Dn<2>>(12) }
fn c22_real_s2() { real::<S2>(12) }
fn c22_real_s128() { real::<S128_1>(7) }
fn c22_real_s256() { real::<S256_1>(8) }
}

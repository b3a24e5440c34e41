//! C19: exactly the indices of the index range are accepted.
use crate::{check, harnesses};
use crate::mt::{MT, M64, M128, M256};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::config::{width_64 as w64, width_128 as w128, width_256 as w256};
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
type S<L> = SparseTree<L, u64>;
type Sd<L> = SparseTree<L, u64, ReqDefault>;

/// min(width^depth, usize::MAX), computed without overflow
fn end(lb: u32, d: u32) -> usize { if lb * d >= 64 { usize::MAX } else { 1usize << (lb * d) } }
fn idx<T: HibitTree>(_: &T, i: usize) -> Index<T::LevelMask, T::LevelCount> { Index::from(i) }
/// any index at all is inserted and used; the tree has one element at index z
macro_rules! any { ($T:ty, $lb:literal, $d:literal $(, $gm:ident)?) => {{
    let e = end($lb, $d);
    check!(<$T as HibitTree>::index_range().end == e);
    check!(!<$T as HibitTree>::index_range().contains(&e));
    let z = if e < usize::MAX { 0x2a5a_5a5a_1111_7777 & (e - 1) } else { 0x2a5a_5a5a_1111_7777 };
    let mut t: $T = Default::default();
    t.insert(z, 5);
    let how = conc(below(7));
    let i = bits(64) as usize;
    let ok = i < e;
    let mut got = 0;
    let panicked = match how {
        0 => catch(|| t.insert(i, 7)),
        1 => catch(|| { got = 1; match t.remove(i) { Some(_) => got = 5, None => () } }),
        2 => catch(|| *t.get_or_insert(i) += 7),
        3 => catch(|| { match t.get(i) { Some(x) => got = *x, None => got = 1 } }),
        4 => catch(|| { let x = idx(&t, i); check!(usize::from(x) == i); t.insert(x, 7); }),
        5 => catch(|| { got = 1; $( if let Some(x) = t.$gm(i) { got = *x; *x = 9; } )? }),
        _ => catch(|| { let x = idx(&t, i); check!(usize::from(x) == i && usize::from(x.clone()) == i); got = match t.get(x) { Some(x) => *x, None => 1 }; }),
    };
    let gm = 0 $( + { stringify!($gm).len() } )?;
    check!(panicked == !(ok | (how == 5 && gm == 0)));
    let there = i == z;
    if panicked { check!((got == 0) | (how == 5) | (how == 1)); } else { if how == 1 || how == 3 || how == 6 { check!(got == ite(there, 5, 1)); } if how == 5 && gm != 0 { check!(got == ite(there, 5, 1)); } }
    // what is there now
    let zz = t.get(z).copied();
    let want = if panicked || !there { 5 } else { match how { 0 | 4 => 7, 1 => 0, 2 => 12, 5 => if gm == 0 { 5 } else { 9 }, _ => 5 } };
    check!(crate::model::o0(zz) == want);
    if !panicked && !there && ok {
        let w = match how { 0 | 2 | 4 => 7, _ => 0 };
        check!(crate::model::v0(t.get(i)) == w);
        if $lb < 8 || how == 0 || how == 1 { check!(t.key_values().0.len() == 1 + (w != 0) as usize); }
    }
    if panicked { check!(t.key_values().0.len() == 1); }
    cover(1);
}} }
/// lazy operations and get_or_default check the index as well
macro_rules! lazy { ($M:ty, $lb:literal, $d:literal) => {{
    let e = end($lb, $d);
    let q = bits(64) as usize;
    let i = ite(q < e, q as u64, 0) as usize;
    let a = MT::<$M, $d, 1, true>::new(0, [i]);
    let b = MT::<$M, $d, 1, true>::new(1, [i]);
    let how = conc(below(6));
    let p = match how {
        0 => catch(|| { let _ = intersection(&a, &b).get(q).is_some(); }),
        1 => catch(|| { let _ = union(&a, &b).get(q).is_some(); }),
        2 => catch(|| { let _ = map(&a, |x: u64| x).get(q).is_some(); }),
        3 => catch(|| { let _ = multi_intersection([&a, &b].into_iter()).get(q).is_some(); }),
        4 => catch(|| { let _ = multi_union([&a, &b].into_iter()).get(q).is_some(); }),
        _ => catch(|| { let _ = multi_map_fold(multi_union([&a, &b].into_iter()), || 0u64, |x: u64, y: u64| x + y).get(q).is_some(); }),
    };
    check!(p == !(q < e));
    if p { check!((a.calls() == 0) & (b.calls() == 0)); }
    fn ends<T: HibitTree>(_: &T) -> usize { T::index_range().end }
    check!(ends(&intersection(&a, &b)) == e && ends(&union(&a, &b)) == e && ends(&map(&a, |x: u64| x)) == e && ends(&multi_union([&a, &b].into_iter())) == e && ends(&multi_intersection([&a, &b].into_iter())) == e);
    cover(1);
}} }
macro_rules! deflt { ($T:ty, $lb:literal, $d:literal) => {{
    let e = end($lb, $d);
    let mut t: $T = Default::default();
    t.insert(1, 5);
    let i = bits(64) as usize;
    let mut got = 0;
    let p = catch(|| got = *t.get_or_default(i) + 1);
    check!(p == !(i < e));
    check!(got == ite(p, 0, ite(i == 1, 6, 1)));
    cover(1);
}} }
/// different indices, different elements; usize and Index interchangeable.
/// The two indices differ in one bit of one digit (any digit, any value of it, any bit).
macro_rules! apart { ($T:ty, $lb:literal, $d:literal) => {{
    let e = <$T as HibitTree>::index_range().end;
    let lev = conc(below($d)) as u32;
    let base = match conc(below(2)) { 0 => 0, _ => e / 2 };
    let flip = conc(below($lb)) as u32;
    let i = base ^ ((bits($lb) as usize) << (lev * $lb));
    let j = i ^ (1usize << flip << (lev * $lb));
    assume((i < e) & (j < e) & (i != j));
    let mut t: $T = Default::default();
    let x = idx(&t, i);
    t.insert(x, 3);
    t.insert(j, 4);
    check!(crate::model::v0(t.get(i)) == 3 && crate::model::v0(t.get(idx(&t, j))) == 4);
    let y = idx(&t, j);
    check!(crate::model::o0(t.remove(y)) == 4);
    check!(t.get(y).is_none() && crate::model::v0(t.get(x)) == 3);
    cover(1);
}} }
harnesses! {
fn c19_dense1() { any!(DenseTree<u64, 1>, 6, 1) }
fn c19_dense2() { any!(DenseTree<u64, 2>, 6, 2) }
fn c19_dense3() { any!(DenseTree<u64, 3>, 6, 3) }
fn c19_dense4() { any!(DenseTree<u64, 4>, 6, 4) }
fn c19_dense5() { any!(DenseTree<u64, 5>, 6, 5) }
fn c19_dense6() { any!(DenseTree<u64, 6>, 6, 6) }
fn c19_dense7() { any!(DenseTree<u64, 7>, 6, 7) }
fn c19_dense8() { any!(DenseTree<u64, 8>, 6, 8) }
fn c19_dense9() { any!(DenseTree<u64, 9>, 6, 9) }
fn c19_w64_1() { any!(S<w64::depth_1>, 6, 1, get_mut) }
fn c19_w64_2() { any!(S<w64::depth_2>, 6, 2, get_mut) }
fn c19_w64_3() { any!(S<w64::depth_3>, 6, 3, get_mut) }
fn c19_w64_4() { any!(S<w64::depth_4>, 6, 4, get_mut) }
fn c19_w64_5() { any!(S<w64::depth_5>, 6, 5, get_mut) }
fn c19_w64_6() { any!(S<w64::depth_6>, 6, 6, get_mut) }
fn c19_w64_7() { any!(S<w64::depth_7>, 6, 7, get_mut) }
fn c19_w64_8() { any!(S<w64::depth_8>, 6, 8, get_mut) }
fn c19_w128_1() { any!(S<w128::depth_1>, 7, 1, get_mut) }
fn c19_w128_2() { any!(S<w128::depth_2>, 7, 2, get_mut) }
fn c19_w128_3() { any!(S<w128::depth_3>, 7, 3, get_mut) }
fn c19_w128_4() { any!(S<w128::depth_4>, 7, 4, get_mut) }
fn c19_w128_5() { any!(S<w128::depth_5>, 7, 5, get_mut) }
fn c19_w128_6() { any!(S<w128::depth_6>, 7, 6, get_mut) }
fn c19_w128_7() { any!(S<w128::depth_7>, 7, 7, get_mut) }
fn c19_w128_8() { any!(S<w128::depth_8>, 7, 8, get_mut) }
fn c19_w256_1() { any!(S<w256::depth_1>, 8, 1, get_mut) }
fn c19_w256_2() { any!(S<w256::depth_2>, 8, 2, get_mut) }
fn c19_w256_3() { any!(S<w256::depth_3>, 8, 3, get_mut) }
fn c19_w256_4() { any!(S<w256::depth_4>, 8, 4, get_mut) }
fn c19_w256_5() { any!(S<w256::depth_5>, 8, 5, get_mut) }
fn c19_w256_6() { any!(S<w256::depth_6>, 8, 6, get_mut) }
fn c19_w256_7() { any!(S<w256::depth_7>, 8, 7, get_mut) }
fn c19_w256_8() { any!(S<w256::depth_8>, 8, 8, get_mut) }
fn c19_lazy64_1() { lazy!(M64, 6, 1) }
fn c19_lazy64_2() { lazy!(M64, 6, 2) }
fn c19_lazy64_5() { lazy!(M64, 6, 5) }
fn c19_lazy64_9() { lazy!(M64, 6, 9) }
fn c19_lazy128_1() { lazy!(M128, 7, 1) }
fn c19_lazy128_3() { lazy!(M128, 7, 3) }
fn c19_lazy256_2() { lazy!(M256, 8, 2) }
fn c19_lazy256_4() { lazy!(M256, 8, 4) }
fn c19_def64_1() { deflt!(Sd<w64::depth_1>, 6, 1) }
fn c19_def64_3() { deflt!(Sd<w64::depth_3>, 6, 3) }
fn c19_def128_2() { deflt!(Sd<w128::depth_2>, 7, 2) }
fn c19_def256_4() { deflt!(Sd<w256::depth_4>, 8, 4) }
fn c19_def256_8() { deflt!(Sd<w256::depth_8>, 8, 8) }
fn c19_apart_dense1() { apart!(DenseTree<u64, 1>, 6, 1) }
fn c19_apart_dense3() { apart!(DenseTree<u64, 3>, 6, 3) }
fn c19_apart_dense5() { apart!(DenseTree<u64, 5>, 6, 5) }
fn c19_apart_dense7() { apart!(DenseTree<u64, 7>, 6, 7) }
fn c19_apart_dense8() { apart!(DenseTree<u64, 8>, 6, 8) }
fn c19_apart_dense9() { apart!(DenseTree<u64, 9>, 6, 9) }
fn c19_apart_w64_5() { apart!(S<w64::depth_5>, 6, 5) }
fn c19_apart_w64_8() { apart!(S<w64::depth_8>, 6, 8) }
fn c19_apart_w128_1() { apart!(S<w128::depth_1>, 7, 1) }
fn c19_apart_w128_8() { apart!(S<w128::depth_8>, 7, 8) }
fn c19_apart_w256_1() { apart!(S<w256::depth_1>, 8, 1) }
fn c19_apart_w256_4() { apart!(S<w256::depth_4>, 8, 4) }
fn c19_apart_w256_8() { apart!(S<w256::depth_8>, 8, 8) }
}

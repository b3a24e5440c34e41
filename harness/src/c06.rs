//! C06: intersection.
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_move, mt_iter};
use crate::mt::*;
use crate::model::Tree;
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};

fn any_get<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    if lb::<M>() as usize * D == 64 { assume(q[0] != usize::MAX); }
    let (a, b) = (MT::<M, D, 1, true>::new(0, q), MT::<M, D, 1, false>::new(1, q));
    let want = |p: usize| both(a.want(p), b.want(p), pair(a.want(p), b.want(p)));
    let t = intersection(&a, &b);
    mt_get!(t, enc, q[0], want(0));
}
fn any_cursor<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let (a, b) = (MT::<M, D, 1, true>::new(0, q), MT::<M, D, 1, false>::new(1, q));
    let want = |p: usize| both(a.want(p), b.want(p), pair(a.want(p), b.want(p)));
    let mask = |p: usize, l: usize| mand(&a.mask(p, l), &b.mask(p, l));
    let t = intersection(&a, &b);
    mt_cursor!(t, enc, q, mask, want);
}
/// operands with up to two indices each, any nodes without items too
fn few<M: BitBlock, const D: usize, const X: bool>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let (a, b) = (MT::<M, D, 2, X>::of(0, q, c), MT::<M, D, 2, false>::of(1, q, c));
    let t = intersection(&a, &b);
    mt_iter!(t, enc, q, |k| both(a.at(k), b.at(k), pair(a.at(k), b.at(k))));
}
/// real containers of two insertions each
fn real<A: Tree + HibitTree + Borrowable<Borrowed = A>, B: Tree + HibitTree<LevelCount = A::LevelCount, LevelMask = A::LevelMask> + Borrowable<Borrowed = B>>(w: u32, sh: u32, base: usize)
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, for<'a> B: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>,
      A: RegularHibitTree, B: RegularHibitTree {
    let (mut a, mut b) = (A::new(), B::new());
    let k: [usize; 3] = std::array::from_fn(|_| base ^ (key(w) << sh));
    a.ins(k[0], 11); a.ins(k[1], 12);
    b.ins(k[1], 21); b.ins(k[2], 22);
    if flag() { b.rem(k[0]); }
    let t = intersection(&a, &b);
    mt_iter!(t, enc, k, |k| { let (x, y) = (a.gt(k), b.gt(k)); both(x, y, pair(x, y)) });
    cover(1);
}
fn real_get<A: Tree + HibitTree + Borrowable<Borrowed = A>, B: Tree + HibitTree<LevelCount = A::LevelCount, LevelMask = A::LevelMask> + Borrowable<Borrowed = B>>()
where for<'a> A: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>, for<'a> B: HibitTreeTypes<'a, Data = &'a u64, DataUnchecked = &'a u64>,
      A: RegularHibitTree, B: RegularHibitTree {
    let (mut a, mut b) = (A::new(), B::new());
    a.ins(key(A::BITS), 11);
    b.ins(key(A::BITS), 21); b.ins(key(A::BITS), 22);
    let q = key(A::BITS);
    let (x, y) = (a.gt(q), b.gt(q));
    let w = both(x, y, pair(x, y));
    // by value, by reference
    if flag() { let t = intersection(a, &b); mt_get!(t, enc, q, w); } else { let t = intersection(&a, b); mt_get!(t, enc, q, w); }
}
use hibit_tree::utils::Borrowable;
use crate::model::{D as Dn, S1, S2, S3, S128_1, S128_2, S256_1, S256_2};
/// a tree with itself
fn same<M: BitBlock, const D: usize, const X: bool>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let a = MT::<M, D, 2, X>::of(0, q, c);
    let t = intersection(&a, &a);
    let at = |k: usize| { let v = a.at(k); both(v, v, pair(v, v)) };
    match conc(below(3)) {
        0 => mt_get!(t, enc, q[0], at(q[0])),
        1 => mt_cursor!(t, enc, q, |p: usize, l: usize| a.mask(p, l), |p: usize| at(q[p])),
        _ => mt_iter!(t, enc, q, at),
    }
    cover(1);
}
harnesses! {
fn c06_same_m64_d1() { same::<M64, 1, true>() }
fn c06_same_m64_d2() { same::<M64, 2, false>() }
fn c06_same_m64_d4() { same::<M64, 4, true>() }
fn c06_same_m128_d2() { same::<M128, 2, true>() }
fn c06t_same_m256_d3() { same::<M256, 3, false>() }
fn c06_get_m64_d1() { any_get::<M64, 1>() }
fn c06_get_m64_d2() { any_get::<M64, 2>() }
fn c06_get_m64_d3() { any_get::<M64, 3>() }
fn c06_get_m64_d5() { any_get::<M64, 5>() }
fn c06_get_m64_d9() { any_get::<M64, 9>() }
fn c06_get_m128_d1() { any_get::<M128, 1>() }
fn c06_get_m128_d2() { any_get::<M128, 2>() }
fn c06_get_m128_d4() { any_get::<M128, 4>() }
fn c06_get_m128_d8() { any_get::<M128, 8>() }
fn c06_get_m256_d1() { any_get::<M256, 1>() }
fn c06_get_m256_d2() { any_get::<M256, 2>() }
fn c06_get_m256_d4() { any_get::<M256, 4>() }
fn c06_get_m256_d8() { any_get::<M256, 8>() }
fn c06_cursor_m64_d1() { any_cursor::<M64, 1>() }
fn c06_cursor_m64_d2() { any_cursor::<M64, 2>() }
fn c06_cursor_m64_d3() { any_cursor::<M64, 3>() }
fn c06_cursor_m64_d5() { any_cursor::<M64, 5>() }
fn c06_cursor_m64_d9() { any_cursor::<M64, 9>() }
fn c06_cursor_m128_d1() { any_cursor::<M128, 1>() }
fn c06_cursor_m128_d2() { any_cursor::<M128, 2>() }
fn c06_cursor_m128_d4() { any_cursor::<M128, 4>() }
fn c06_cursor_m128_d8() { any_cursor::<M128, 8>() }
fn c06_cursor_m256_d1() { any_cursor::<M256, 1>() }
fn c06_cursor_m256_d2() { any_cursor::<M256, 2>() }
fn c06_cursor_m256_d4() { any_cursor::<M256, 4>() }
fn c06_cursor_m256_d8() { any_cursor::<M256, 8>() }
fn c06_few_exact_m64_d1() { few::<M64, 1, true>() }
fn c06_few_exact_m64_d2() { few::<M64, 2, true>() }
fn c06_few_m64_d2() { few::<M64, 2, false>() }
fn c06_few_m64_d3() { few::<M64, 3, false>() }
fn c06t_few_m64_d5() { few::<M64, 5, false>() }
fn c06_few_m128_d2() { few::<M128, 2, false>() }
fn c06t_few_m256_d2() { few::<M256, 2, false>() }
fn c06_real_dd1() { real::<Dn<1>, Dn<1>>(6, 0, 0) }
fn c06_real_dd2() { real::<Dn<2>, Dn<2>>(12, 0, 0) }
fn c06_real_ds2() { real::<Dn<2>, S2>(12, 0, 0) }
fn c06_real_sd3() { real::<S3, Dn<3>>(18, 0, 0) }
fn c06_real_ss128() { real::<S128_2, S128_2>(6, 6, 0x1040) }
fn c06_real_ss128_hi() { real::<S128_2, S128_2>(4, 9, 0x1040) }
fn c06_real_ss256() { real::<S256_1, S256_1>(6, 0, 0xc0) }
fn c06_get_dd1() { real_get::<Dn<1>, Dn<1>>() }
fn c06_get_ds2() { real_get::<Dn<2>, S2>() }
fn c06_get_ss128() { real_get::<S128_2, S128_2>() }
fn c06_get_ss256() { real_get::<S256_2, S256_2>() }
}

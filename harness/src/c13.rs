//! C13: nested expressions.
use crate::{check, harnesses, mt_get, mt_cursor, mt_data, mt_move, mt_iter};
use crate::mt::*;
use crate::model::{Tree, D as Dn, S1, S2, S3, S128_1, S128_2, S256_1, S256_2};
use crate::sym::*;
use hibit_tree::*;
use hibit_tree::const_utils::{ConstInteger, ConstUsize};

// set algebra on encoded items, 0 = not contained
fn i2(a: u64, b: u64) -> u64 { both(a, b, pair(a, b)) }
fn u2(a: u64, b: u64) -> u64 { either(a, b, pair(a, b)) }
fn m1(a: u64) -> u64 { ite(a != 0, f1(a), 0) }
fn f1(a: u64) -> u64 { a.wrapping_mul(2) | 1 }
fn mi<const N: usize>(v: [u64; N]) -> u64 { let (mut a, mut all) = (1, N > 0); for v in v { a = then(a, v); all &= v != 0; } ite(all, a | 1, 0) }
fn mu<const N: usize>(v: [u64; N]) -> u64 { let (mut a, mut n) = (1, false); for v in v { a = ite(v != 0, then(a, v), a); n |= v != 0; } ite(n, a | 1, 0) }
/// an item that is an iterator of iterators
fn seq2<I: Iterator<Item: Iterator<Item: Enc>>>(it: I) -> u64 { let mut a = 1; for x in it { a = then(a, seq(x)); } a | 1 }
/// a pair of an iterator and a plain item
fn sp<I: Iterator<Item: Enc>, E: Enc>(d: (I, E)) -> u64 { let a = seq(d.0); pair(a, d.1.enc()) }
fn so<I: Iterator<Item: Enc>, E: Enc>(d: (Option<I>, Option<E>)) -> u64 { let a = match d.0 { Some(i) => seq(i), None => 0 }; pair(a, d.1.enc()) }

macro_rules! exprs { ($($name:ident $get:ident $cursor:ident $few:ident $mv:ident: $X:expr, $enc:path, |$a:ident| $e:expr, |$v:ident| $w:expr, |$m:ident| $k:expr;)*) => { $(
fn $get<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let $a: [MT<M, D, 1, $X>; 4] = std::array::from_fn(|i| MT::new(i as u64, q));
    let $v: [u64; 4] = std::array::from_fn(|i| $a[i].want(0));
    let w = $w;
    match $e { t => mt_get!(t, $enc, q[0], w) }
}
fn $cursor<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 1>();
    let $a: [MT<M, D, 1, $X>; 4] = std::array::from_fn(|i| MT::new(i as u64, q));
    let want = |p: usize| { let $v: [u64; 4] = std::array::from_fn(|i| $a[i].want(p)); $w };
    let mask = |p: usize, l: usize| { let $m: [M; 4] = std::array::from_fn(|i| $a[i].mask(p, l)); $k };
    match $e { t => mt_cursor!(t, $enc, q, mask, want) }
}
fn $mv<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let q = paths::<M, D, 2>();
    let $a: [MT<M, D, 2, $X>; 4] = std::array::from_fn(|i| MT::new(i as u64, q));
    let want = |p: usize| { let $v: [u64; 4] = std::array::from_fn(|i| $a[i].want(p)); $w };
    let mask = |p: usize, l: usize| { let $m: [M; 4] = std::array::from_fn(|i| $a[i].mask(p, l)); $k };
    match $e { t => mt_move!(t, $enc, q, mask, want) }
}
fn $few<M: BitBlock, const D: usize>() where ConstUsize<D>: ConstInteger {
    let (q, c) = two::<M, D>();
    let $a: [MT<M, D, 2, $X>; 4] = std::array::from_fn(|i| MT::of(i as u64, q, c));
    match $e { t => mt_iter!(t, $enc, q, |k| { let $v: [u64; 4] = std::array::from_fn(|i| $a[i].at(k)); $w }) }
}
)* } }
exprs! {
i_u g_i_u c_i_u f_i_u v_i_u: true, enc, |a| intersection(union(&a[0], &a[1]), &a[2]), |v| i2(u2(v[0], v[1]), v[2]), |m| mand(&mor(&m[0], &m[1]), &m[2]);
u_i g_u_i c_u_i f_u_i v_u_i: true, enc, |a| union(intersection(&a[0], &a[1]), &a[2]), |v| u2(i2(v[0], v[1]), v[2]), |m| mor(&mand(&m[0], &m[1]), &m[2]);
u_ii g_u_ii c_u_ii f_u_ii v_u_ii: false, enc, |a| union(intersection(&a[0], &a[1]), intersection(&a[2], &a[3])), |v| u2(i2(v[0], v[1]), i2(v[2], v[3])), |m| mor(&mand(&m[0], &m[1]), &mand(&m[2], &m[3]));
i_uu g_i_uu c_i_uu f_i_uu v_i_uu: true, enc, |a| intersection(union(&a[0], &a[1]), union(&a[2], &a[3])), |v| i2(u2(v[0], v[1]), u2(v[2], v[3])), |m| mand(&mor(&m[0], &m[1]), &mor(&m[2], &m[3]));
map_iu g_map_iu c_map_iu f_map_iu v_map_iu: true, enc, |a| map(intersection(map(&a[0], |x: u64| f1(x)), union(&a[1], &a[2])), |x: (u64, (Option<u64>, Option<u64>))| f1(x.enc())), |v| m1(i2(m1(v[0]), u2(v[1], v[2]))), |m| mand(&m[0], &mor(&m[1], &m[2]));
mu_i g_mu_i c_mu_i f_mu_i v_mu_i: true, seq, |a| multi_union([intersection(&a[0], &a[1]), intersection(&a[2], &a[3])].iter()), |v| mu([i2(v[0], v[1]), i2(v[2], v[3])]), |m| mor(&mand(&m[0], &m[1]), &mand(&m[2], &m[3]));
mi_u g_mi_u c_mi_u f_mi_u v_mi_u: true, seq, |a| multi_intersection([union(&a[0], &a[1]), union(&a[2], &a[3])].iter()), |v| mi([u2(v[0], v[1]), u2(v[2], v[3])]), |m| mand(&mor(&m[0], &m[1]), &mor(&m[2], &m[3]));
fold_i g_fold_i c_fold_i f_fold_i v_fold_i: true, enc, |a| union(multi_map_fold(multi_intersection(a[..2].iter()), || 1u64, |x: u64, y: u64| then(x, y) | 1), &a[2]), |v| u2(mif([v[0], v[1]]), v[2]), |m| mor(&mand(&m[0], &m[1]), &m[2]);
fold_u g_fold_u c_fold_u f_fold_u v_fold_u: true, enc, |a| intersection(&a[2], multi_union(a[..2].iter()).map_fold(|| 1u64, |x: u64, y: u64| then(x, y) | 1)), |v| i2(v[2], muf([v[0], v[1]])), |m| mand(&m[2], &mor(&m[0], &m[1]));
mu_mu g_mu_mu c_mu_mu f_mu_mu v_mu_mu: true, seq2, |a| multi_union([multi_union(a[..2].iter()), multi_union(a[2..].iter())].iter()), |v| mu([mu([v[0], v[1]]), mu([v[2], v[3]])]), |m| mor(&mor(&m[0], &m[1]), &mor(&m[2], &m[3]));
mu_mi g_mu_mi c_mu_mi f_mu_mi v_mu_mi: false, seq2, |a| multi_union([multi_intersection(a[..2].iter()), multi_intersection(a[2..].iter())].iter()), |v| mu([mi([v[0], v[1]]), mi([v[2], v[3]])]), |m| mor(&mand(&m[0], &m[1]), &mand(&m[2], &m[3]));
mi_mu g_mi_mu c_mi_mu f_mi_mu v_mi_mu: true, seq2, |a| multi_intersection([multi_union(a[..2].iter()), multi_union(a[2..].iter())].iter()), |v| mi([mu([v[0], v[1]]), mu([v[2], v[3]])]), |m| mand(&mor(&m[0], &m[1]), &mor(&m[2], &m[3]));
i_mu g_i_mu c_i_mu f_i_mu v_i_mu: true, sp, |a| intersection(multi_union(a[..2].iter()), &a[2]), |v| i2(mu([v[0], v[1]]), v[2]), |m| mand(&mor(&m[0], &m[1]), &m[2]);
u_mi g_u_mi c_u_mi f_u_mi v_u_mi: true, so, |a| union(multi_intersection(a[..2].iter()), &a[2]), |v| u2(mi([v[0], v[1]]), v[2]), |m| mor(&mand(&m[0], &m[1]), &m[2]);
mi_mi0 g_mi_mi0 c_mi_mi0 f_mi_mi0 v_mi_mi0: true, seq2, |a| multi_intersection([multi_intersection(a[..2].iter()), multi_intersection(a[..0].iter())].iter()), |v| mi([mi([v[0], v[1]]), 0]), |m| { let _ = &m; M::zero() };
mu_mu0 g_mu_mu0 c_mu_mu0 f_mu_mu0 v_mu_mu0: false, seq2, |a| multi_union([multi_union(a[..0].iter()), multi_union(a[1..2].iter())].iter()), |v| mu([0, mu([v[1]])]), |m| m[1].clone();
fold_fold g_fold_fold c_fold_fold f_fold_fold v_fold_fold: true, enc, |a| multi_map_fold(multi_union([&a[..2], &a[2..]].map(|s| multi_map_fold(multi_intersection(s.iter()), || 1u64, |x: u64, y: u64| then(x, y) | 1)).iter()), || 1u64, |x: u64, y: u64| then(x, y) | 1), |v| muf([mif([v[0], v[1]]), mif([v[2], v[3]])]), |m| mor(&mand(&m[0], &m[1]), &mand(&m[2], &m[3]));
deep g_deep c_deep f_deep v_deep: true, enc, |a| union(map(union(intersection(&a[0], union(&a[1], &a[2])), &a[3]), |x: (Option<(u64, (Option<u64>, Option<u64>))>, Option<u64>)| f1(x.enc())), intersection(&a[3], &a[0])), |v| u2(m1(u2(i2(v[0], u2(v[1], v[2])), v[3])), i2(v[3], v[0])), |m| mor(&mor(&mand(&m[0], &mor(&m[1], &m[2])), &m[3]), &mand(&m[3], &m[0]));
}
fn mif<const N: usize>(v: [u64; N]) -> u64 { let (mut a, mut all) = (1, N > 0); for v in v { a = then(a, v) | 1; all &= v != 0; } ite(all, a, 0) }
fn muf<const N: usize>(v: [u64; N]) -> u64 { let (mut a, mut n) = (1, false); for v in v { a = ite(v != 0, then(a, v) | 1, a); n |= v != 0; } ite(n, a, 0) }
harnesses! {
fn c13_get_i_u() { g_i_u::<M64, 2>() }
fn c13_cur_i_u() { c_i_u::<M64, 2>() }
fn c13_few_i_u() { f_i_u::<M64, 2>() }
fn c13t_get3_i_u() { g_i_u::<M128, 3>() }
fn c13t_cur3_i_u() { c_i_u::<M64, 3>() }
fn c13t_few3_i_u() { f_i_u::<M64, 3>() }
fn c13t_move_i_u() { v_i_u::<M64, 2>() }
fn c13_few1_i_u() { f_i_u::<M64, 1>() }
fn c13_get_u_i() { g_u_i::<M64, 2>() }
fn c13_cur_u_i() { c_u_i::<M64, 2>() }
fn c13_few_u_i() { f_u_i::<M64, 2>() }
fn c13t_get3_u_i() { g_u_i::<M128, 3>() }
fn c13t_cur3_u_i() { c_u_i::<M64, 3>() }
fn c13t_few3_u_i() { f_u_i::<M64, 3>() }
fn c13t_move_u_i() { v_u_i::<M64, 2>() }
fn c13_few1_u_i() { f_u_i::<M64, 1>() }
fn c13_get_u_ii() { g_u_ii::<M64, 2>() }
fn c13_cur_u_ii() { c_u_ii::<M64, 2>() }
fn c13_few_u_ii() { f_u_ii::<M64, 2>() }
fn c13t_get3_u_ii() { g_u_ii::<M128, 3>() }
fn c13t_cur3_u_ii() { c_u_ii::<M64, 3>() }
fn c13t_few3_u_ii() { f_u_ii::<M64, 3>() }
fn c13t_move_u_ii() { v_u_ii::<M64, 2>() }
fn c13_few1_u_ii() { f_u_ii::<M64, 1>() }
fn c13_get_i_uu() { g_i_uu::<M64, 2>() }
fn c13_cur_i_uu() { c_i_uu::<M64, 2>() }
fn c13_few_i_uu() { f_i_uu::<M64, 2>() }
fn c13t_get3_i_uu() { g_i_uu::<M128, 3>() }
fn c13t_cur3_i_uu() { c_i_uu::<M64, 3>() }
fn c13t_few3_i_uu() { f_i_uu::<M64, 3>() }
fn c13t_move_i_uu() { v_i_uu::<M64, 2>() }
fn c13_few1_i_uu() { f_i_uu::<M64, 1>() }
fn c13_get_map_iu() { g_map_iu::<M64, 2>() }
fn c13_cur_map_iu() { c_map_iu::<M64, 2>() }
fn c13_few_map_iu() { f_map_iu::<M64, 2>() }
fn c13t_get3_map_iu() { g_map_iu::<M128, 3>() }
fn c13t_cur3_map_iu() { c_map_iu::<M64, 3>() }
fn c13t_few3_map_iu() { f_map_iu::<M64, 3>() }
fn c13t_move_map_iu() { v_map_iu::<M64, 2>() }
fn c13_few1_map_iu() { f_map_iu::<M64, 1>() }
fn c13_get_mu_i() { g_mu_i::<M64, 2>() }
fn c13_cur_mu_i() { c_mu_i::<M64, 2>() }
fn c13_few_mu_i() { f_mu_i::<M64, 2>() }
fn c13t_get3_mu_i() { g_mu_i::<M128, 3>() }
fn c13t_cur3_mu_i() { c_mu_i::<M64, 3>() }
fn c13t_few3_mu_i() { f_mu_i::<M64, 3>() }
fn c13t_move_mu_i() { v_mu_i::<M64, 2>() }
fn c13_few1_mu_i() { f_mu_i::<M64, 1>() }
fn c13_get_mi_u() { g_mi_u::<M64, 2>() }
fn c13_cur_mi_u() { c_mi_u::<M64, 2>() }
fn c13_few_mi_u() { f_mi_u::<M64, 2>() }
fn c13t_get3_mi_u() { g_mi_u::<M128, 3>() }
fn c13t_cur3_mi_u() { c_mi_u::<M64, 3>() }
fn c13t_few3_mi_u() { f_mi_u::<M64, 3>() }
fn c13t_move_mi_u() { v_mi_u::<M64, 2>() }
fn c13_few1_mi_u() { f_mi_u::<M64, 1>() }
fn c13_get_fold_i() { g_fold_i::<M64, 2>() }
fn c13_cur_fold_i() { c_fold_i::<M64, 2>() }
fn c13_few_fold_i() { f_fold_i::<M64, 2>() }
fn c13t_get3_fold_i() { g_fold_i::<M128, 3>() }
fn c13t_cur3_fold_i() { c_fold_i::<M64, 3>() }
fn c13t_few3_fold_i() { f_fold_i::<M64, 3>() }
fn c13t_move_fold_i() { v_fold_i::<M64, 2>() }
fn c13_few1_fold_i() { f_fold_i::<M64, 1>() }
fn c13_get_fold_u() { g_fold_u::<M64, 2>() }
fn c13_cur_fold_u() { c_fold_u::<M64, 2>() }
fn c13_few_fold_u() { f_fold_u::<M64, 2>() }
fn c13t_get3_fold_u() { g_fold_u::<M128, 3>() }
fn c13t_cur3_fold_u() { c_fold_u::<M64, 3>() }
fn c13t_few3_fold_u() { f_fold_u::<M64, 3>() }
fn c13t_move_fold_u() { v_fold_u::<M64, 2>() }
fn c13_few1_fold_u() { f_fold_u::<M64, 1>() }
fn c13_get_mu_mu() { g_mu_mu::<M64, 2>() }
fn c13_cur_mu_mu() { c_mu_mu::<M64, 2>() }
fn c13_few_mu_mu() { f_mu_mu::<M64, 2>() }
fn c13t_get3_mu_mu() { g_mu_mu::<M128, 3>() }
fn c13t_cur3_mu_mu() { c_mu_mu::<M64, 3>() }
fn c13t_few3_mu_mu() { f_mu_mu::<M64, 3>() }
fn c13t_move_mu_mu() { v_mu_mu::<M64, 2>() }
fn c13_few1_mu_mu() { f_mu_mu::<M64, 1>() }
fn c13_get_mu_mi() { g_mu_mi::<M64, 2>() }
fn c13_cur_mu_mi() { c_mu_mi::<M64, 2>() }
fn c13_few_mu_mi() { f_mu_mi::<M64, 2>() }
fn c13t_get3_mu_mi() { g_mu_mi::<M128, 3>() }
fn c13t_cur3_mu_mi() { c_mu_mi::<M64, 3>() }
fn c13t_few3_mu_mi() { f_mu_mi::<M64, 3>() }
fn c13t_move_mu_mi() { v_mu_mi::<M64, 2>() }
fn c13_few1_mu_mi() { f_mu_mi::<M64, 1>() }
fn c13_get_mi_mu() { g_mi_mu::<M64, 2>() }
fn c13_cur_mi_mu() { c_mi_mu::<M64, 2>() }
fn c13_few_mi_mu() { f_mi_mu::<M64, 2>() }
fn c13t_get3_mi_mu() { g_mi_mu::<M128, 3>() }
fn c13t_cur3_mi_mu() { c_mi_mu::<M64, 3>() }
fn c13t_few3_mi_mu() { f_mi_mu::<M64, 3>() }
fn c13t_move_mi_mu() { v_mi_mu::<M64, 2>() }
fn c13_few1_mi_mu() { f_mi_mu::<M64, 1>() }
fn c13_get_i_mu() { g_i_mu::<M64, 2>() }
fn c13_cur_i_mu() { c_i_mu::<M64, 2>() }
fn c13_few_i_mu() { f_i_mu::<M64, 2>() }
fn c13t_get3_i_mu() { g_i_mu::<M128, 3>() }
fn c13t_cur3_i_mu() { c_i_mu::<M64, 3>() }
fn c13t_few3_i_mu() { f_i_mu::<M64, 3>() }
fn c13t_move_i_mu() { v_i_mu::<M64, 2>() }
fn c13_few1_i_mu() { f_i_mu::<M64, 1>() }
fn c13_get_u_mi() { g_u_mi::<M64, 2>() }
fn c13_cur_u_mi() { c_u_mi::<M64, 2>() }
fn c13_few_u_mi() { f_u_mi::<M64, 2>() }
fn c13t_get3_u_mi() { g_u_mi::<M128, 3>() }
fn c13t_cur3_u_mi() { c_u_mi::<M64, 3>() }
fn c13t_few3_u_mi() { f_u_mi::<M64, 3>() }
fn c13t_move_u_mi() { v_u_mi::<M64, 2>() }
fn c13_few1_u_mi() { f_u_mi::<M64, 1>() }
fn c13_get_mi_mi0() { g_mi_mi0::<M64, 2>() }
fn c13_cur_mi_mi0() { c_mi_mi0::<M64, 2>() }
fn c13_few_mi_mi0() { f_mi_mi0::<M64, 2>() }
fn c13t_get3_mi_mi0() { g_mi_mi0::<M128, 3>() }
fn c13t_cur3_mi_mi0() { c_mi_mi0::<M64, 3>() }
fn c13t_few3_mi_mi0() { f_mi_mi0::<M64, 3>() }
fn c13t_move_mi_mi0() { v_mi_mi0::<M64, 2>() }
fn c13_few1_mi_mi0() { f_mi_mi0::<M64, 1>() }
fn c13_get_mu_mu0() { g_mu_mu0::<M64, 2>() }
fn c13_cur_mu_mu0() { c_mu_mu0::<M64, 2>() }
fn c13_few_mu_mu0() { f_mu_mu0::<M64, 2>() }
fn c13t_get3_mu_mu0() { g_mu_mu0::<M128, 3>() }
fn c13t_cur3_mu_mu0() { c_mu_mu0::<M64, 3>() }
fn c13t_few3_mu_mu0() { f_mu_mu0::<M64, 3>() }
fn c13t_move_mu_mu0() { v_mu_mu0::<M64, 2>() }
fn c13_few1_mu_mu0() { f_mu_mu0::<M64, 1>() }
fn c13_get_fold_fold() { g_fold_fold::<M64, 2>() }
fn c13_cur_fold_fold() { c_fold_fold::<M64, 2>() }
fn c13t_few_fold_fold() { f_fold_fold::<M64, 2>() }
fn c13t_get3_fold_fold() { g_fold_fold::<M128, 3>() }
fn c13t_cur3_fold_fold() { c_fold_fold::<M64, 3>() }
fn c13t_few3_fold_fold() { f_fold_fold::<M64, 3>() }
fn c13t_move_fold_fold() { v_fold_fold::<M64, 2>() }
fn c13_few1_fold_fold() { f_fold_fold::<M64, 1>() }
fn c13_get_deep() { g_deep::<M64, 2>() }
fn c13_cur_deep() { c_deep::<M64, 2>() }
fn c13_few_deep() { f_deep::<M64, 2>() }
fn c13t_get3_deep() { g_deep::<M128, 3>() }
fn c13t_cur3_deep() { c_deep::<M64, 3>() }
fn c13t_few3_deep() { f_deep::<M64, 3>() }
fn c13t_move_deep() { v_deep::<M64, 2>() }
fn c13_few1_deep() { f_deep::<M64, 1>() }
}

use crate::{check, harnesses};
use crate::sym::*;
use hibit_tree::*;
harnesses! {
fn t0_dense2() {
    let mut t: DenseTree<u64,2> = Default::default();
    let k = key(12); let k2 = key(12);
    t.insert(k, 1);
    t.insert(k2, 2);
    let q = key(12);
    let r = t.get(q).copied();
    check!(r == if q==k2 {Some(2)} else if q==k {Some(1)} else {None});
    for (k,v) in t.iter() { check!(t.get(k)==Some(v)); }
    cover(1);
}
fn t0_dense2_bad() {
    let mut t: DenseTree<u64,2> = Default::default();
    let k = key(12); let k2 = key(12);
    t.insert(k, 1);
    t.insert(k2, 2);
    let q = key(12);
    let r = t.get(q).copied();
    check!(r == if q==k2 {Some(2)} else if q==k {Some(if k ==77 && q == 78 {3} else {1})} else {None});
}
fn t0_dense3_rem() {
    let mut t: DenseTree<u64,3> = Default::default();
    for i in 0..3 { t.insert(key(18), i); }
    for _ in 0..2 { let k = key(18); let had = t.get(k).copied(); check!(t.remove(k)==had); check!(t.get(k).is_none()); }
    cover(1);
}
fn t0_dense1_rem() {
    let mut t: DenseTree<u64,1> = Default::default();
    t.insert(key(6), 1);
    t.remove(key(6));
}
fn t0_w256_full() {
    let mut t: SparseTree<config::width_256::depth_2, Option<u8>> = Default::default();
    for i in 0..256 { t.insert(i*256, Some(7u8)); }
    let q = below(256) as usize;
    check!(t.get(q*256).is_some());
}
}

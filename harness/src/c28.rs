//! C28: room that removals free is used again.
use crate::{check, harnesses};
use crate::model::*;
use crate::sym::*;

/// Two items at most, far apart: the most a tree of two items can need. What it holds with them, and without.
fn warm<T: Tree>(t: &mut T) -> (u64, u64) {
    let far = if T::BITS == 64 { usize::MAX - 1 } else { (1usize << T::BITS) - 1 };
    t.ins(0, 1); t.ins(far, 2);
    let peak = live_heap();
    check!((t.rem(0) == 1) & (t.rem(far) == 2));
    (live_heap(), peak)
}
fn read<T: Tree>(t: &T) {
    let l = live_heap();
    let mut n = 0;
    t.each(|_, _| n += 1);
    check!(n <= 2);
    t.gt(tkey::<T>());
    check!(live_heap() == l);
}
/// one item, again and again
fn ones<T: Tree>(cycles: usize) {
    {
        let mut t = T::new();
        let (base, peak) = warm(&mut t);
        for _ in 0..cycles {
            let k = tkey::<T>();
            t.ins(k, 3);
            check!(live_heap() <= peak);
            check!(t.rem(k) == 3);
            check!(live_heap() <= base);
        }
        read(&t);
    }
    cover(1);
}
/// two items, again and again; removed in either order
fn twos<T: Tree>(cycles: usize) {
    {
        let mut t = T::new();
        let (base, peak) = warm(&mut t);
        for i in 0..cycles {
            let (a, b) = (tkey::<T>(), tkey::<T>());
            t.ins(a, 3);
            *t.goi(b) = 4;
            check!(live_heap() <= peak);
            if i == 0 { read(&t); }
            let (x, y) = if i & 1 == 0 { (a, b) } else { (b, a) };
            check!(t.rem(x) != 0);
            t.rem(y);
            check!(live_heap() <= base);
        }
    }
    cover(1);
}
/// never more than two items and never none, for a while
fn chain<T: Tree>(links: usize, always: bool) {
    {
        let mut t = T::new();
        let (base, peak) = warm(&mut t);
        let mut k = tkey::<T>();
        t.ins(k, 3);
        for _ in 0..links {
            let n = tkey::<T>();
            t.ins(n, 4);
            // (a node of a dense tree keeps the room of two children until it goes)
            check!((live_heap() <= peak) | !always);
            if k != n { t.rem(k); } else { t.rem(n); t.ins(n, 5); }
            k = n;
        }
        t.rem(k);
        check!(live_heap() <= base);
    }
    cover(1);
}
/// every item of a node goes and comes back; operations that change nothing in between
fn refill<T: Tree>(n: usize, stride: usize, rounds: usize) {
    {
        let mut t = T::new();
        for i in 0..n { t.ins(i * stride, 1); }
        let peak = live_heap();
        for i in 0..n { t.rem(i * stride); }
        let base = live_heap();
        let s = below(n as u64) as usize;
        for _ in 0..rounds {
            // from any place on
            for i in 0..n { t.ins(((i + s) % n) * stride, 1); check!(live_heap() <= peak); }
            for i in 0..n { t.ins(i * stride, 2); }
            check!(live_heap() <= peak);
            for i in 0..n { check!(t.rem(((i + s) % n) * stride) == 2); }
            check!(t.rem(s * stride) == 0);
            check!(live_heap() <= base);
        }
    }
    cover(1);
}
use hibit_tree::{SparseTree, ReqDefault, config};
harnesses! {
fn c28_ones_dense_d1() { ones::<D<1>>(6) }
fn c28_ones_dense_d2() { ones::<D<2>>(6) }
fn c28_ones_dense_d4() { ones::<D<4>>(6) }
fn c28_ones_dense_d8() { ones::<D<8>>(4) }
fn c28_ones_w64_d1() { ones::<S1>(6) }
fn c28_ones_w64_d2() { ones::<S2>(6) }
fn c28_ones_w64_d3() { ones::<S3>(6) }
fn c28_ones_w64_d8() { ones::<SparseTree<config::width_64::depth_8, u64>>(6) }
fn c28_ones_w128_d2() { ones::<S128_2>(6) }
fn c28_ones_w128_d3() { ones::<SparseTree<config::width_128::depth_3, u64>>(4) }
fn c28_ones_w256_d2() { ones::<S256_2>(5) }
fn c28_ones_w256_d4() { ones::<SparseTree<config::width_256::depth_4, u64>>(2) }
fn c28t_ones_w256_d4() { ones::<SparseTree<config::width_256::depth_4, u64>>(3) }
fn c28_twos_dense_d1() { twos::<D<1>>(3) }
fn c28_twos_dense_d2() { twos::<D<2>>(3) }
fn c28_twos_dense_d3() { twos::<D<3>>(3) }
fn c28_twos_w64_d1() { twos::<S1>(3) }
fn c28_twos_w64_d2() { twos::<S2>(5) }
fn c28_twos_w64_d3() { twos::<S3>(4) }
fn c28_twos_w128_d2() { twos::<S128_2>(2) }
fn c28_twos_w256_d2() { twos::<S256_2>(1) }
fn c28t_twos_w256_d2() { twos::<S256_2>(2) }
fn c28_twos_w64_d5() { twos::<SparseTree<config::width_64::depth_5, u64>>(2) }
fn c28_chain_dense_d2() { chain::<D<2>>(4, false) }
fn c28_chain_dense_d3() { chain::<D<3>>(4, false) }
fn c28_chain_w64_d2() { chain::<S2>(5, true) }
fn c28_chain_w64_d3() { chain::<S3>(5, true) }
fn c28_chain_w128_d2() { chain::<S128_2>(3, true) }
fn c28_chain_w256_d2() { chain::<S256_2>(2, true) }
fn c28t_chain_w256_d2() { chain::<S256_2>(4, true) }
fn c28_refill_dense_d1() { refill::<D<1>>(6, 1, 2) }
fn c28_refill_dense_d2() { refill::<D<2>>(7, 64, 2) }
fn c28_refill_w64_d2() { refill::<S2>(12, 64, 2) }
fn c28_refill_w64_d3() { refill::<S3>(7, 4096, 2) }
fn c28_refill_w128_d2() { refill::<S128_2>(7, 128, 2) }
fn c28_refill_w256_d2() { refill::<S256_2>(7, 256, 2) }
fn c28t_twos_w128_d2() { twos::<S128_2>(3) }
fn c28t_refill_dense_d1() { refill::<D<1>>(9, 1, 2) }
fn c28t_twos_w64_d4() { twos::<S4>(3) }
fn c28t_twos_w64_d3() { twos::<S3>(5) }
fn c28t_chain_w64_d4() { chain::<S4>(5, true) }
fn c28t_twos_dense_d5() { twos::<D<5>>(2) }
fn c28t_refill_w64_d2() { refill::<S2>(40, 64, 3) }
}

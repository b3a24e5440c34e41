//! Runs one harness natively on the inputs of a counterexample.
//! exit 0: no violation; 101: assertion of the harness failed; others: crash, panic, sanitizer.
#![allow(static_mut_refs)]
#[cfg(not(miri))]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::Ordering::SeqCst;
use hibit_harness::sym;

/// Counts live blocks and checks that memory is given back with the layout it was taken with.
/// (Miri checks that itself, but not behind a custom allocator.)
#[cfg(not(miri))]
mod counting {
    use super::*;
    pub struct Counting;
    const N: usize = 1 << 20;
    static mut TAB: [(usize, usize); N] = [(0, 0); N];
    static mut USED: usize = 0;
    fn enc(l: Layout) -> usize { l.size() << 8 | l.align().trailing_zeros() as usize }
    fn slot(p: usize) -> usize { (p >> 4).wrapping_mul(0x9E3779B97F4A7C15) >> 44 }
    unsafe fn put(p: usize, l: Layout) {
        if USED > N / 4 * 3 { return }
        let mut i = slot(p);
        while TAB[i].0 > 1 && TAB[i].0 != p { i = (i + 1) & (N - 1) }
        if TAB[i].0 == 0 { USED += 1 }
        TAB[i] = (p, enc(l));
    }
    unsafe fn take(p: usize, l: Layout) {
        let mut i = slot(p);
        while TAB[i].0 != 0 {
            if TAB[i].0 == p {
                let was = TAB[i].1;
                TAB[i].0 = 1;
                if was != enc(l) {
                    eprintln!("REPLAY-VIOLATION: deallocated with size {} align {} but allocated with size {} align {}", l.size(), l.align(), was >> 8, 1 << (was & 255));
                    std::process::exit(101)
                }
                return;
            }
            i = (i + 1) & (N - 1);
        }
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            sym::LIVE.fetch_add(l.size() as u64, SeqCst); sym::BLOCKS.fetch_add(1, SeqCst);
            let p = System.alloc(l);
            put(p as usize, l);
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            sym::LIVE.fetch_sub(l.size() as u64, SeqCst); sym::BLOCKS.fetch_sub(1, SeqCst);
            take(p as usize, l);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let inputs: Vec<u64> = a[2..].iter().map(|x| x.parse().unwrap()).collect();
    let f = hibit_harness::list().into_iter().find(|x| x.0 == a[1]).expect("harness").1;
    drop(a);
    sym::set_inputs(inputs);
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); eprintln!("{}", m.replace('\n', " ")); }));
    let before = sym::BLOCKS.load(SeqCst);
    let r = std::panic::catch_unwind(|| f());
    match r {
        Err(_) if sym::expecting() => println!("REPLAY: expected panic"),
        Err(_) => { println!("REPLAY-VIOLATION: panic"); std::process::exit(101) }
        Ok(()) if sym::expecting() => { println!("REPLAY-VIOLATION: expected a panic"); std::process::exit(101) }
        Ok(()) => {
            if sym::leak_checked() && sym::BLOCKS.load(SeqCst) > before { println!("REPLAY-VIOLATION: leak"); std::process::exit(101) }
            println!("REPLAY: no violation");
        }
    }
}

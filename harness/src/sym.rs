//! The interface between harnesses and the symbolic engine.
//!
//! Compiled for the engine these are undefined symbols the engine interprets. Compiled with
//! `--features replay` they read the concrete values of a counterexample and check the
//! assertions natively, so that a counterexample is confirmed on the real code.

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn sym_bits(w: u32) -> u64;
        fn sym_assume(b: bool);
        fn sym_assert(b: bool, id: u32);
        fn sym_ite(c: bool, a: u64, b: u64) -> u64;
        fn sym_cover(id: u32);
        fn sym_expect_panic(b: bool);
        fn sym_no_leak_check();
        fn sym_conc(v: u64) -> u64;
        fn sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
        fn sym_live_heap() -> u64;
    }
    extern "C-unwind" { fn sym_throw() -> !; }
    #[inline(always)] pub fn bits(w: u32) -> u64 { unsafe { sym_bits(w) } }
    #[inline(always)] pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    #[inline(always)] pub fn assert_id(b: bool, id: u32) { unsafe { sym_assert(b, id) } }
    #[inline(always)] pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { sym_ite(c, a, b) } }
    #[inline(always)] pub fn cover(id: u32) { unsafe { sym_cover(id) } }
    #[inline(always)] pub fn expect_panic(b: bool) { unsafe { sym_expect_panic(b) } }
    #[inline(always)] pub fn no_leak_check() { unsafe { sym_no_leak_check() } }
    #[inline(always)] pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
    #[inline(always)] pub fn throw() -> ! { unsafe { sym_throw() } }
    #[inline(always)] pub fn live_heap() -> u64 { unsafe { sym_live_heap() } }
    pub fn catch<F: FnMut()>(mut f: F) -> bool {
        extern "C-unwind" fn tramp<F: FnMut()>(p: *mut u8) { unsafe { (*(p as *mut F))() } }
        unsafe { sym_catch(tramp::<F>, &mut f as *mut F as *mut u8) }
    }
}

#[cfg(feature = "replay")]
mod imp {
    use std::cell::{Cell, RefCell};
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    thread_local! {
        static IN: RefCell<std::collections::VecDeque<u64>> = RefCell::new(Default::default());
        static EXPECT: Cell<bool> = Cell::new(false);
        static NOLEAK: Cell<bool> = Cell::new(false);
    }
    pub static LIVE: AtomicU64 = AtomicU64::new(0);
    pub static BLOCKS: AtomicU64 = AtomicU64::new(0);
    pub fn set_inputs(v: Vec<u64>) { IN.with(|i| *i.borrow_mut() = v.into()) }
    pub fn expecting() -> bool { EXPECT.with(|e| e.get()) }
    pub fn leak_checked() -> bool { !NOLEAK.with(|e| e.get()) }
    pub fn bits(w: u32) -> u64 {
        // a run that leaves the engine's path may ask for more values than the path had: 0 is a value too
        let v = IN.with(|i| i.borrow_mut().pop_front()).unwrap_or(0);
        if w >= 64 { v } else { v & ((1u64 << w) - 1) }
    }
    pub fn assume(b: bool) { if !b { println!("REPLAY: assumption not met"); std::process::exit(0) } }
    pub fn assert_id(b: bool, id: u32) {
        if !b { println!("REPLAY-VIOLATION: assertion at harness line {}", id); std::process::exit(101) }
    }
    pub fn ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
    pub fn cover(_: u32) {}
    pub fn expect_panic(b: bool) { EXPECT.with(|e| e.set(b)) }
    pub fn no_leak_check() { NOLEAK.with(|e| e.set(true)) }
    pub fn conc(v: u64) -> u64 { v }
    pub struct Thrown;
    pub fn throw() -> ! { std::panic::resume_unwind(Box::new(Thrown)) }
    pub fn live_heap() -> u64 { LIVE.load(SeqCst) }
    pub fn catch<F: FnMut()>(mut f: F) -> bool {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).is_err()
    }
}
pub use imp::*;

/// A property assertion; its identity is the harness source line.
#[macro_export]
macro_rules! check { ($c:expr) => { $crate::sym::assert_id($c, line!()) }; }

/// symbolic index below 2^w
#[inline(always)] pub fn key(w: u32) -> usize { bits(w) as usize }
#[inline(always)] pub fn flag() -> bool { bits(1) != 0 }
/// symbolic value in 0..n
#[inline(always)] pub fn below(n: u64) -> u64 {
    let w = 64 - (n - 1).leading_zeros();
    let v = bits(w.max(1));
    assume(v < n);
    v
}
/// Branchless boolean operators (`&&`/`||` would split paths).
#[inline(always)] pub fn iff(c: bool, a: u64, b: u64) -> u64 { ite(c, a, b) }
/// branchless implication
#[inline(always)] pub fn imp_(a: bool, b: bool) -> bool { !a | b }

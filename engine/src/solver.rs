//! z3 back end: incremental QF_BV solver with assumption literals, constraint
//! slicing and a result cache.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type Z = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_bv_sort(c: Z, w: c_uint) -> Z;
    fn Z3_mk_bool_sort(c: Z) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsub(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvneg(c: Z, a: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, hi: c_uint, lo: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_implies(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_dec_ref(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check_assumptions(c: Z, s: Z, n: c_uint, a: *const Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, compl: bool, out: *mut Z) -> bool;
    fn Z3_get_numeral_uint64(c: Z, a: Z, out: *mut u64) -> bool;
    fn Z3_solver_get_reason_unknown(c: Z, s: Z) -> *const c_char;
    fn Z3_benchmark_to_smtlib_string(c: Z, n: *const c_char, l: *const c_char, st: *const c_char, at: *const c_char, k: c_uint, a: *const Z, f: Z) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: Z,
    s: Z,
    ast: Vec<Z>,     // bit-vector / bool translation by expr id
    lit: FxMap<E, Z>, // assumption literal per constraint
    nlit: usize,
    maxlit: usize,
    cache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u64)>>>>,
    pub stats: Stats,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let (k, v) = (CString::new("timeout").unwrap(), CString::new("200000").unwrap()); // ms per query
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg); // automatic reference counting of ASTs
            let mut r = Solver {
                c, s: std::ptr::null_mut(), ast: vec![], lit: Default::default(), nlit: 0, maxlit: std::env::var("SYMEX_LITS").ok().and_then(|x| x.parse().ok()).unwrap_or(120),
                cache: Default::default(), stats: Default::default(),
            };
            r.fresh_solver();
            r
        }
    }
    fn fresh_solver(&mut self) {
        unsafe {
            if !self.s.is_null() { Z3_solver_dec_ref(self.c, self.s); }
            let l = CString::new(std::env::var("SYMEX_LOGIC").unwrap_or("QF_BV".into())).unwrap();
            self.s = if l.as_bytes() == b"simple" { Z3_mk_simple_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr())) };
            Z3_solver_inc_ref(self.c, self.s);
            self.lit.clear();
            self.nlit = 0;
        }
    }
    fn num(&self, w: u16, v: u128) -> Z {
        unsafe {
            let sort = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, sort) } else {
                let s = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), sort)
            }
        }
    }
    /// translate; width-1 expressions become Bool
    fn tr(&mut self, root: E) -> Z {
        if self.ast.len() < cx().n.len() { self.ast.resize(cx().n.len(), std::ptr::null_mut()); }
        let mut stack = vec![root];
        while let Some(&e) = stack.last() {
            if !self.ast[e as usize].is_null() { stack.pop(); continue; }
            let n = *node(e);
            let kids: &[E] = match n.op {
                Op::Const | Op::Sym => &[],
                Op::Extract | Op::ZExt | Op::SExt | Op::Popcnt | Op::Ctz => &[n.a],
                Op::Ite => &[n.a, n.b, n.c],
                _ => &[n.a, n.b],
            };
            let mut ready = true;
            for &k in kids { if self.ast[k as usize].is_null() { stack.push(k); ready = false; } }
            if !ready { continue; }
            stack.pop();
            let z = self.build(e, n);
            self.ast[e as usize] = z;
        }
        self.ast[root as usize]
    }
    fn bvof(&self, e: E) -> Z {
        // bit-vector view of an operand (width-1 are Bool in `ast`)
        let z = self.ast[e as usize];
        if width(e) == 1 { unsafe { Z3_mk_ite(self.c, z, self.num(1, 1), self.num(1, 0)) } } else { z }
    }
    fn build(&self, e: E, n: Node) -> Z {
        let c = self.c;
        unsafe {
            let a = || self.bvof(n.a);
            let b = || self.bvof(n.b);
            let ab = || self.ast[n.a as usize];
            let bb = || self.ast[n.b as usize];
            let tobool = |z: Z| Z3_mk_eq(c, z, self.num(1, 1));
            match n.op {
                Op::Const => {
                    let v = as_const(e).unwrap();
                    if n.w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.num(n.w, v) }
                }
                Op::Sym => {
                    let nm = CString::new(format!("s{}", n.a)).unwrap();
                    let sort = if n.w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, n.w as c_uint) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), sort)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let v = [ab(), bb()];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => if as_const(n.b) == Some(1) { Z3_mk_not(c, v[0]) } else { Z3_mk_xor(c, v[0], v[1]) },
                    }
                }
                Op::Add => Z3_mk_bvadd(c, a(), b()),
                Op::Sub => Z3_mk_bvsub(c, a(), b()),
                Op::Mul => Z3_mk_bvmul(c, a(), b()),
                Op::UDiv => Z3_mk_bvudiv(c, a(), b()),
                Op::URem => Z3_mk_bvurem(c, a(), b()),
                Op::SDiv => Z3_mk_bvsdiv(c, a(), b()),
                Op::SRem => Z3_mk_bvsrem(c, a(), b()),
                Op::And => Z3_mk_bvand(c, a(), b()),
                Op::Or => Z3_mk_bvor(c, a(), b()),
                Op::Xor => Z3_mk_bvxor(c, a(), b()),
                Op::Shl => Z3_mk_bvshl(c, a(), b()),
                Op::LShr => Z3_mk_bvlshr(c, a(), b()),
                Op::AShr => Z3_mk_bvashr(c, a(), b()),
                Op::Eq => Z3_mk_eq(c, a(), b()),
                Op::Ult => Z3_mk_bvult(c, a(), b()),
                Op::Slt => Z3_mk_bvslt(c, a(), b()),
                Op::Ite => Z3_mk_ite(c, ab(), bb(), self.ast[n.c as usize]),
                Op::Concat => Z3_mk_concat(c, a(), b()),
                Op::Extract => {
                    let z = Z3_mk_extract(c, n.b + n.w as c_uint - 1, n.b, a());
                    if n.w == 1 { tobool(z) } else { z }
                }
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - width(n.a)) as c_uint, a()),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - width(n.a)) as c_uint, a()),
                Op::Popcnt => {
                    // balanced adder tree
                    let x = a();
                    let mut v: Vec<(Z, c_uint)> = (0..n.w as c_uint).map(|i| (Z3_mk_extract(c, i, i, x), 1)).collect();
                    while v.len() > 1 {
                        let mut nv = vec![];
                        for p in v.chunks(2) {
                            if p.len() == 2 {
                                let w = p[0].1.max(p[1].1) + 1;
                                let q = Z3_mk_zero_ext(c, w - p[0].1, p[0].0);
                                let r = Z3_mk_zero_ext(c, w - p[1].1, p[1].0);
                                nv.push((Z3_mk_bvadd(c, q, r), w));
                            } else { nv.push(p[0]); }
                        }
                        v = nv;
                    }
                    let (z, w) = v[0];
                    let nw = n.w as c_uint;
                    if w == nw { z } else if w < nw { Z3_mk_zero_ext(c, nw - w, z) } else { Z3_mk_extract(c, nw - 1, 0, z) }
                }
                Op::Ctz => {
                    let x = a();
                    let w = n.w;
                    let t = Z3_mk_bvand(c, x, Z3_mk_bvneg(c, x)); // isolated low bit
                    let zero = self.num(w, 0);
                    let mut acc = zero;
                    let mut k = 0u16;
                    while (1u32 << k) < w as u32 {
                        let mut mk: u128 = 0;
                        for i in 0..w { if i >> k & 1 == 1 { mk |= 1 << i; } }
                        let hit = Z3_mk_not(c, Z3_mk_eq(c, Z3_mk_bvand(c, t, self.num(w, mk)), zero));
                        acc = Z3_mk_bvor(c, acc, Z3_mk_ite(c, hit, self.num(w, 1 << k), zero));
                        k += 1;
                    }
                    Z3_mk_ite(c, Z3_mk_eq(c, x, zero), self.num(w, w as u128), acc)
                }
            }
        }
    }
    fn literal(&mut self, e: E) -> Z {
        if let Some(&z) = self.lit.get(&e) { return z; }
        unsafe {
            let t = self.tr(e);
            let nm = CString::new(format!("p{}", e)).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, nm.as_ptr()), Z3_mk_bool_sort(self.c));
            Z3_solver_assert(self.c, self.s, Z3_mk_implies(self.c, p, t));
            self.lit.insert(e, p);
            self.nlit += 1;
            p
        }
    }
    /// Is `pc && extra` satisfiable?  `base` satisfies pc; on SAT returns the
    /// base updated with the new values.  Err on solver failure.
    pub fn check(&mut self, pc: &[E], extra: E, base: &[u64]) -> Result<Option<Vec<u64>>, String> {
        if let Some(k) = as_const(extra) {
            if k == 0 { return Ok(None); }
            return Ok(Some(base.to_vec()));
        }
        // slice
        let mut set = node(extra).syms;
        let mut sel = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &p) in pc.iter().enumerate() {
                if !sel[i] && node(p).syms & set != 0 {
                    sel[i] = true;
                    set |= node(p).syms;
                    ch = true;
                }
            }
            if !ch { break; }
        }
        let mut key: Vec<E> = pc.iter().zip(&sel).filter(|x| *x.1).map(|x| *x.0).collect();
        key.sort_unstable();
        key.dedup();
        key.push(extra);
        let res = if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            if self.nlit > self.maxlit { self.fresh_solver(); }
            let t0 = std::time::Instant::now();
            let lits: Vec<Z> = key.iter().map(|&e| self.literal(e)).collect();
            if let Some(d) = std::env::var_os("SYMEX_DUMP") {
                let asts: Vec<Z> = key.iter().map(|&e| self.tr(e)).collect();
                let t = unsafe { let e = CString::new("").unwrap(); let l = CString::new("QF_BV").unwrap(); std::ffi::CStr::from_ptr(Z3_benchmark_to_smtlib_string(self.c, e.as_ptr(), l.as_ptr(), e.as_ptr(), e.as_ptr(), asts.len() as c_uint - 1, asts.as_ptr(), asts[asts.len() - 1])).to_string_lossy().into_owned() };
                std::fs::write(format!("{}/q{}_{}.smt2", d.to_string_lossy(), std::process::id(), self.stats.queries), t).unwrap();
            }
            let r = unsafe { Z3_solver_check_assumptions(self.c, self.s, lits.len() as c_uint, lits.as_ptr()) };
            let r = match r {
                1 => {
                    let mut v = vec![];
                    unsafe {
                        let m = Z3_solver_get_model(self.c, self.s);
                        Z3_model_inc_ref(self.c, m);
                        for (i, &(se, w, u_)) in cx().syms.iter().enumerate() {
                            if !u_ && set >> (i % 127) & 1 == 0 { continue; }
                            if u_ && set >> 127 == 0 { continue; }
                            if (se as usize) >= self.ast.len() || self.ast[se as usize].is_null() { continue; }
                            let q = if w == 1 { Z3_mk_ite(self.c, self.ast[se as usize], self.num(1, 1), self.num(1, 0)) } else { self.ast[se as usize] };
                            let mut out = std::ptr::null_mut();
                            if !Z3_model_eval(self.c, m, q, true, &mut out) { return Err("model eval".into()); }
                            let mut x = 0u64;
                            if !Z3_get_numeral_uint64(self.c, out, &mut x) { return Err("model numeral".into()); }
                            v.push((i as u32, x));
                        }
                        Z3_model_dec_ref(self.c, m);
                    }
                    self.stats.sat += 1;
                    Some(Rc::new(v))
                }
                -1 => { self.stats.unsat += 1; None }
                _ => {
                    let s = unsafe { std::ffi::CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s)) };
                    return Err(format!("solver answered unknown: {}", s.to_string_lossy()));
                }
            };
            let dt = t0.elapsed().as_micros() as u64;
            self.stats.queries += 1;
            self.stats.time_us += dt;
            self.stats.max_us = self.stats.max_us.max(dt);
            if self.cache.len() > 200_000 { self.cache.clear(); }
            self.cache.insert(key, r.clone());
            r
        };
        Ok(res.map(|v| {
            let mut b = base.to_vec();
            for &(i, x) in v.iter() {
                if b.len() <= i as usize { b.resize(i as usize + 1, 0); }
                b[i as usize] = x;
            }
            b
        }))
    }
}

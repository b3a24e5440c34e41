//! Symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::solver::Solver;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val { I(u16, u64), S(E), U, Agg(Rc<Vec<Val>>) }

pub type Cell = u64;
const UNDEF: Cell = 1 << 62;
const SYM: Cell = 2 << 62;
#[inline]
fn sym_cell(e: E, byte: u32) -> Cell { SYM | ((e as u64) << 8) | byte as u64 }

#[derive(Clone)]
pub struct LogEnt { off: E, lo: u64, hi: u64, cells: Rc<Vec<Cell>> }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global, Const }

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub live: bool,
    pub cells: Vec<Cell>,
    pub log: Vec<LogEnt>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ref { H(usize), S(usize), G(usize) }
pub enum Acc { C(Ref, u64), S(Ref, E) }

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack_base: usize,
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Rc<Obj>>,
    pub next_heap: u64,
    pub stack: Vec<Rc<Obj>>,
    pub next_stack: u64,
    pub globals: FxMap<usize, Rc<Obj>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub conc: FxMap<E, u64>,
    pub syms: Vec<E>,
    pub nuninit: usize,
    pub steps: u64,
    pub expect_panic: bool,
    pub leak_check: bool,
    pub asserts: u64,
    pub notes: Vec<(u64, Val)>,
    pub unwinding: bool,
    pub known: Rc<FxMap<E, E>>,
    pub memo: Rc<std::cell::RefCell<FxMap<E, E>>>,
    pub hash: u64,
    pub tr: Vec<(u32, u32)>,
}

#[derive(Debug, Clone)]
pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub trace: Vec<String> }

#[derive(Debug)]
pub enum Fault { Viol(String, String), Unsup(String), Infeasible, Budget(String) }
type R<T> = Result<T, Fault>;

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64, pub completed: u64, pub panicked_ok: u64, pub infeasible: u64,
    pub forks: u64, pub steps: u64, pub asserts: u64, pub assert_queries: u64, pub max_steps: u64, pub selfchecks: u64, pub closure: u64,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub visited: Vec<Vec<bool>>,
    pub covers: std::collections::BTreeMap<u64, u64>,
    pub symtab: FxMap<(usize, u16), E>,
    pub utab: FxMap<(usize, u16), E>,
    pub gobjs: FxMap<usize, Rc<Obj>>,
    pub max_steps: u64,
    pub trace: bool,
    pub fixed: Option<Vec<u64>>,
    pub entry: String,
    pub few_r: usize,
    pub few_w: usize,
    pub split_base: usize,
    pub few_p: usize,
    pub every: u64,
    pub samples: Vec<Vec<u64>>,
    pub kinds: FxMap<usize, Ext>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None, Body, SymBits, Assume, Assert, IteV, Cover, ExpectPanic, NoLeak, Note, Conc, Throw, Catch,
    Alloc, AllocZ, Dealloc, Realloc, Panic, Memcmp, Bcmp, Strlen, Memcpy, Memset, LiveHeap, Unsupported, Malloc, Free, CallocE, ReallocE, PosixMemalign,
}

fn classify(n: &str) -> Ext {
    match n {
        "sym_bits" => return Ext::SymBits,
        "sym_assume" => return Ext::Assume,
        "sym_assert" => return Ext::Assert,
        "sym_ite" => return Ext::IteV,
        "sym_cover" => return Ext::Cover,
        "sym_expect_panic" => return Ext::ExpectPanic,
        "sym_no_leak_check" => return Ext::NoLeak,
        "sym_note" => return Ext::Note,
        "sym_conc" => return Ext::Conc,
        "sym_throw" => return Ext::Throw,
        "sym_catch" => return Ext::Catch,
        "sym_live_heap" => return Ext::LiveHeap,
        "memcmp" => return Ext::Memcmp,
        "bcmp" => return Ext::Bcmp,
        "strlen" => return Ext::Strlen,
        "memcpy" | "memmove" => return Ext::Memcpy,
        "memset" => return Ext::Memset,
        "malloc" => return Ext::Malloc,
        "free" => return Ext::Free,
        "calloc" => return Ext::CallocE,
        "realloc" => return Ext::ReallocE,
        "posix_memalign" => return Ext::PosixMemalign,
        "abort" | "llvm.trap" | "llvm.ubsantrap" => return Ext::Panic,
        _ => {}
    }
    let c = |s: &str| n.contains(s);
    if c("___rust_alloc_zeroed") || c("11___rdl_alloc_zeroed") || n == "__rust_alloc_zeroed" { return Ext::AllocZ; }
    if c("___rust_alloc_error") { return Ext::Panic; }
    if c("12___rust_alloc") || c("11___rdl_alloc") || n == "__rust_alloc" { return Ext::Alloc; }
    if c("14___rust_dealloc") || c("13___rdl_dealloc") || n == "__rust_dealloc" { return Ext::Dealloc; }
    if c("14___rust_realloc") || c("13___rdl_realloc") || n == "__rust_realloc" { return Ext::Realloc; }
    if c("4core9panicking") || c("3std9panicking") || c("18handle_alloc_error") || c("7raw_vec12handle_error")
        || c("17capacity_overflow") || c("6option13unwrap_failed") || c("6option13expect_failed") || c("6result13unwrap_failed")
        || c("4core4cell22panic_already") || c("_ZN4core9panicking") || c("_ZN3std9panicking")
        || c("5slice5index16slice_index_fail") || c("slice5index24slice_end") || c("slice5index26slice_start") || c("slice_start_index") || c("slice_end_index") || c("slice_index_order")
        || c("___rustc17rust_begin_unwind") || c("rust_panic_with_hook") { return Ext::Panic; }
    Ext::Body
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, max_steps: u64) -> Self {
        Exec {
            m, solver: Solver::new(), work: vec![], stats: Default::default(),
            visited: vec![vec![]; m.funcs.len()], covers: Default::default(), symtab: Default::default(), utab: Default::default(),
            gobjs: Default::default(), max_steps, trace: false, fixed: None, entry: String::new(), few_p: envn("SYMEX_FEW_P", 8), few_r: envn("SYMEX_FEW_R", 0), few_w: envn("SYMEX_FEW_W", 8), split_base: envn("SYMEX_SPLIT_BASE", 16), every: 1, samples: vec![], kinds: Default::default(),
        }
    }
    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let &fi = self.m.fmap.get(entry).ok_or(format!("no function {}", entry))?;
        self.entry = entry.to_string();
        let f = self.m.func(fi)?;
        let fr = Frame { regs: vec![Val::U; f.nlocals as usize], f, blk: 0, ip: 0, stack_base: 0, catch: false };
        let st = State {
            frames: vec![Rc::new(fr)], heap: vec![], next_heap: 0x20_0000_0000, stack: vec![], next_stack: 0x7000_0000_0000,
            globals: Default::default(), pc: vec![], model: Rc::new(Model::new(vec![])), conc: Default::default(), syms: vec![],
            nuninit: 0, steps: 0, expect_panic: false, leak_check: true, asserts: 0, notes: vec![], unwinding: false, known: Default::default(), memo: Default::default(), hash: 0, tr: vec![],
        };
        self.mark(&st.frames[0].f.clone(), 0);
        self.work.push(st);
        Ok(())
    }
    #[inline]
    fn note_block(&mut self, st: &mut State, f: u32, b: u32) {
        st.hash = (st.hash.rotate_left(5) ^ ((f as u64) << 32 | b as u64)).wrapping_mul(0x517cc1b727220a95);
        if self.trace { st.tr.push((f, b)); }
    }
    /// Re-execute a finished path with the concrete values of its model: it has to take
    /// exactly the same blocks and end the same way. Guards against errors of the engine.
    pub fn selfcheck(&mut self, st: &State, viol: Option<&str>) -> Result<(), String> {
        let vals: Vec<u64> = st.syms.iter().map(|&e| st.model.eval(e) as u64).collect();
        let entry = self.entry.clone();
        let work = std::mem::take(&mut self.work);
        let stats = self.stats.clone();
        let covers = self.covers.clone();
        if viol.is_none() && self.samples.len() < 64 { self.samples.push(vals.clone()); }
        self.fixed = Some(vals);
        let r = self.start(&entry);
        let mut s2 = self.work.pop().unwrap();
        let r = r.map(|_| loop {
            match self.step(&mut s2) { Ok(true) => {} Ok(false) => break Ok(()), Err(f) => break Err(f) }
            if s2.steps > self.max_steps { break Err(Fault::Viol("nontermination".into(), String::new())); }
        });
        self.fixed = None;
        let forked = !self.work.is_empty();
        self.work = work;
        self.stats = stats;
        self.covers = covers;
        self.stats.selfchecks += 1;
        let fin = match r { Err(e) => return Err(e), Ok(Ok(())) => "ok".to_string(), Ok(Err(Fault::Viol(k, _))) => k, Ok(Err(Fault::Unsup(m))) => format!("unsupported {}", m), Ok(Err(Fault::Infeasible)) => "infeasible".into(), Ok(Err(Fault::Budget(m))) => m };
        let want = viol.unwrap_or("ok");
        if fin != want || st.hash != s2.hash || forked {
            let mut at = String::new();
            if self.trace {
                let k = st.tr.iter().zip(&s2.tr).take_while(|(a, b)| a == b).count();
                let nm = |t: &Vec<(u32, u32)>, k: usize| t.get(k).map(|x| format!("{} block {}", self.m.funcs[x.0 as usize].name, x.1)).unwrap_or("end".into());
                at = format!(" diverge at block {} after {}: symbolic {} concrete {}", k, nm(&st.tr, k.wrapping_sub(1)), nm(&st.tr, k), nm(&s2.tr, k));
            }
            return Err(format!("engine self-check: symbolic path ended {} and its concrete re-execution {} (same blocks: {}, forked: {}){}", want, fin, st.hash == s2.hash, forked, at));
        }
        Ok(())
    }
    #[inline]
    fn mark(&mut self, f: &Rc<Func>, b: u32) {
        let v = &mut self.visited[f.id as usize];
        if v.is_empty() { v.resize(f.blocks.len(), false); }
        v[b as usize] = true;
    }

    // ---------- constraints ----------
    fn check(&mut self, st: &State, extra: E) -> R<Option<Vec<u64>>> {
        let r = self.solver.check(&st.pc, extra, &st.model.vals).map_err(Fault::Unsup)?;
        if let Some(v) = &r {
            let m = Model::new(v.clone());
            if m.eval(extra) != 1 { return Err(Fault::Unsup(format!("engine self-check: model does not satisfy {}", show(extra, 6)))); }
        }
        Ok(r)
    }
    fn assume(&mut self, st: &mut State, c: E) {
        if as_const(c).is_none() && !st.pc.contains(&c) { st.pc.push(c); learn(st, c); }
    }
    fn push_other(&mut self, st: &State, c: E, vals: Vec<u64>) {
        let mut o = st.clone();
        o.model = Rc::new(Model::new(vals));
        o.pc.push(c);
        learn(&mut o, c);
        self.stats.forks += 1;
        self.work.push(o);
    }
    fn taint_check(&mut self, st: &State, c: E, what: &str) -> R<()> {
        if !tainted(c) { return Ok(()); }
        let mut m: FxMap<E, E> = Default::default();
        let us: Vec<(E, u16)> = cx().syms.iter().filter(|s| s.2).map(|s| (s.0, s.1)).collect();
        for (i, (e, w)) in us.into_iter().enumerate() {
            let f = self.uninit_sym(1_000_000 + i, w);
            m.insert(e, f);
        }
        let mut memo = Default::default();
        let c2 = subst(c, &m, &mut memo);
        let d = not(eq(c, c2));
        if self.check(st, d)?.is_some() {
            return Err(Fault::Viol("uninit".into(), format!("{} depends on uninitialised memory", what)));
        }
        Ok(())
    }
    /// Decide a width-1 condition on this path, forking the other side if feasible.
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        let c = simp(st, c);
        if let Some(k) = as_const(c) { return Ok(k != 0); }
        let nc = not(c);
        if let Some(k) = implied(st, c) {
            self.stats.closure += 1;
            learn(st, if k { c } else { nc });
            return Ok(k);
        }
        self.taint_check(st, c, "branch condition")?;
        let v = st.model.eval(c) != 0;
        let (this, other) = if v { (c, nc) } else { (nc, c) };
        if let Some(m) = self.check(st, other)? {
            self.push_other(st, other, m);
            self.assume(st, this);
        } else { learn(st, this); }
        Ok(v)
    }
    /// Force an expression to a concrete value on this path (forking over all values).
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(k) = as_const(e) { return Ok(k as u64); }
        if let Some(&k) = st.conc.get(&e) { return Ok(k); }
        let orig = e;
        let mut e = simp(st, e);
        // decide the conditions the value is made of: keeps the path condition simple
        let mut n = 0;
        while as_const(e).is_none() && n < 24 {
            match atom(e, 12) { Some(c) => { self.decide(st, c)?; n += 1; e = simp(st, e); } None => break }
        }
        if let Some(k) = as_const(e) { st.conc.insert(orig, k as u64); return Ok(k as u64); }
        if let Some(&k) = st.conc.get(&e) { return Ok(k); }
        self.taint_check(st, e, "address or length")?;
        let v = st.model.eval(e) as u64;
        let c = eq(e, konst(width(e), v as u128));
        if as_const(c).is_none() {
            let nc = not(c);
            if let Some(m) = self.check(st, nc)? {
                self.push_other(st, nc, m);
                self.assume(st, c);
            }
        }
        st.conc.insert(e, v);
        st.conc.insert(orig, v);
        Ok(v)
    }
    fn uninit_sym(&mut self, n: usize, w: u16) -> E {
        *self.utab.entry((n, w)).or_insert_with(|| new_sym(w, true))
    }
    fn fresh_uninit(&mut self, st: &mut State, w: u16) -> E {
        st.nuninit += 1;
        self.uninit_sym(st.nuninit, w)
    }

    // ---------- memory ----------
    fn global(&mut self, st: &State, g: usize) -> R<Rc<Obj>> {
        if let Some(o) = st.globals.get(&g) { return Ok(o.clone()); }
        if let Some(o) = self.gobjs.get(&g) { return Ok(o.clone()); }
        let gd = &self.m.globals[g];
        let mut cells = vec![UNDEF; gd.size as usize];
        if let Some(o) = self.m.global_init(gd).map_err(Fault::Unsup)? { self.init_cells(&mut cells, 0, &gd.ty, &o)?; }
        else { return Err(Fault::Unsup(format!("external global {}", gd.name))); }
        let ob = Rc::new(Obj { base: gd.addr, size: gd.size, align: gd.align, kind: if gd.constant { Kind::Const } else { Kind::Global }, live: true, cells, log: vec![] });
        self.gobjs.insert(g, ob.clone());
        Ok(ob)
    }
    fn init_cells(&self, cells: &mut [Cell], off: u64, ty: &Ty, o: &Opd) -> R<()> {
        match o {
            Opd::Undef => {}
            Opd::Zero(_) => for i in 0..ty.size() { cells[(off + i) as usize] = 0; },
            Opd::Int(w, v) => for i in 0..((*w as u64 + 7) / 8) { cells[(off + i) as usize] = (v >> (8 * i)) as u64 & 0xff; },
            Opd::Agg(v) => for (k, x) in v.iter().enumerate() {
                let (fo, ft) = ty.field(k as u64);
                self.init_cells(cells, off + fo, &ft, x)?;
            },
            _ => return Err(Fault::Unsup("global init".into())),
        }
        Ok(())
    }
    fn find(&mut self, st: &State, a: u64) -> R<Option<Ref>> {
        if a >= 0x7000_0000_0000 {
            let k = st.stack.partition_point(|o| o.base <= a);
            if k == 0 { return Ok(None); }
            let o = &st.stack[k - 1];
            return Ok(if a <= o.base + o.size { Some(Ref::S(k - 1)) } else { None });
        }
        if a >= 0x20_0000_0000 {
            let k = st.heap.partition_point(|o| o.base <= a);
            if k == 0 { return Ok(None); }
            let o = &st.heap[k - 1];
            return Ok(if a <= o.base + o.size { Some(Ref::H(k - 1)) } else { None });
        }
        if a >= 0x10_0000_0000 {
            let k = self.m.globals.partition_point(|g| g.addr <= a);
            if k == 0 { return Ok(None); }
            let g = &self.m.globals[k - 1];
            return Ok(if a <= g.addr + g.size { Some(Ref::G(k - 1)) } else { None });
        }
        Ok(None)
    }
    fn obj(&mut self, st: &State, r: Ref) -> R<Rc<Obj>> {
        match r { Ref::H(i) => Ok(st.heap[i].clone()), Ref::S(i) => Ok(st.stack[i].clone()), Ref::G(g) => self.global(st, g) }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, r: Ref) -> R<&'a mut Obj> {
        match r {
            Ref::H(i) => Ok(Rc::make_mut(&mut st.heap[i])),
            Ref::S(i) => Ok(Rc::make_mut(&mut st.stack[i])),
            Ref::G(g) => {
                if !st.globals.contains_key(&g) { let o = self.global(st, g)?; st.globals.insert(g, o); }
                Ok(Rc::make_mut(st.globals.get_mut(&g).unwrap()))
            }
        }
    }
    fn describe(&mut self, st: &State, a: u64, size: u64) -> String {
        if a < 0x1000 { return format!("null or near-null address {:#x} (size {})", a, size); }
        // nearest object
        match self.find(st, a) {
            Ok(Some(r)) => {
                if let Ok(o) = self.obj(st, r) {
                    return format!("address {} bytes into a {:?} object of {} bytes (access of {}), live={}", a - o.base, o.kind, o.size, size, o.live);
                }
                "?".into()
            }
            _ => format!("address {:#x} (size {}) outside every object", a, size),
        }
    }
    /// Resolve an address for an access of `size` bytes.
    fn resolve(&mut self, st: &mut State, a: &Val, size: u64, align: u64, write: bool, plain: bool) -> R<Acc> {
        let (addr, e) = match a {
            Val::I(_, v) => (*v, None),
            Val::S(e) => {
                if let Some(&k) = st.conc.get(e) { (k, None) } else {
                    let e = simp(st, *e);
                    if let Some(k) = as_const(e) { (k as u64, None) } else {
                        self.taint_check(st, e, "address")?;
                        (st.model.eval(e) as u64, Some(e))
                    }
                }
            }
            Val::U => return Err(Fault::Viol("uninit".into(), "memory access through an uninitialised pointer".into())),
            _ => return Err(Fault::Unsup("aggregate address".into())),
        };
        let what = if write { "write" } else { "read" };
        let r = self.find(st, addr)?;
        let o = match r { Some(r) => Some((r, self.obj(st, r)?)), None => None };
        let bad = match &o {
            None => true,
            Some((_, o)) => !o.live || addr.checked_add(size).map_or(true, |e| e > o.base + o.size) || (write && o.kind == Kind::Const),
        };
        if bad {
            let k = match &o {
                Some((_, o)) if !o.live => "use-after-free",
                Some((_, o)) if write && o.kind == Kind::Const && addr + size <= o.base + o.size => "write-to-constant",
                _ => "out-of-bounds",
            };
            let mut d = self.describe(st, addr, size);
            if self.trace { if let Some(e) = e { d.push_str(&format!(" expr {} model {:?}", show(e, 14), st.syms.iter().map(|&e| st.model.eval(e) as u64).collect::<Vec<_>>())); for p in &st.pc { d.push_str(&format!("\n   pc {} = {}", show(*p, 10), st.model.eval(*p))); } } }
            return Err(Fault::Viol(k.into(), format!("invalid {}: {}", what, d)));
        }
        let (r, o) = o.unwrap();
        let e = match e {
            None => {
                if align > 1 && addr % align != 0 { return Err(Fault::Viol("misaligned".into(), format!("misaligned {} at {:#x} (align {})", what, addr, align))); }
                return Ok(Acc::C(r, addr - o.base));
            }
            Some(e) => e,
        };
        let n = *node(e);
        let last = o.base + o.size - size;
        if !(n.lo >= o.base && n.hi <= last) {
            let off = sub(e, konst(64, o.base as u128));
            let c = ult(off, konst(64, (o.size - size + 1) as u128));
            if !self.decide(st, c)? { return Err(Fault::Unsup("resolve: model outside".into())); }
        }
        // the address is inside this object on this path: drop the alternatives that cannot be
        let e = restrict(e, o.base, last).unwrap_or(e);
        // an address chosen among constants (which block?): one path per choice, so that the
        // rest of the address is a plain offset
        let mut e = e;
        let mut n = 0;
        while n < self.split_base {
            match const_choice(e, 8) { Some(c) => { self.decide(st, c)?; n += 1; e = simp(st, e); } None => break }
        }
        let off = sub(e, konst(64, o.base as u128));
        if let Some(k) = as_const(off) { return Ok(Acc::C(r, k as u64)); }
        if let Some(&k) = st.conc.get(&off) { return Ok(Acc::C(r, k)); }
        // few possible places: one path each keeps the heap shape concrete
        let few = if write { if plain { 0 } else { self.few_w } } else { self.few_r };
        if Self::cands(off, o.size, size).map_or(false, |c| c.len() <= few) { let k = self.concretize(st, off)?; return Ok(Acc::C(r, k)); }
        Ok(Acc::S(r, off))
    }
    fn cands(off: E, osize: u64, size: u64) -> Option<Vec<u64>> {
        let n = node(off);
        let hi = n.hi.min(osize - size);
        let mut v = vec![];
        let tz = n.kz.trailing_ones().min(12);
        let step = 1u64 << tz;
        let mut o = round(n.lo, step);
        while o <= hi {
            if o & n.kz == 0 && o & n.ko == n.ko { v.push(o); if v.len() > 600 { return None; } }
            o += step;
        }
        Some(v)
    }
    fn cell_byte(c: Cell) -> E {
        if c & SYM != 0 {
            let e = ((c & !SYM) >> 8) as E;
            let b = (c & 0xff) as u32;
            let w = width(e);
            let lo = b * 8;
            if (lo as u16) + 8 <= w { extract(e, lo, 8) } else { zext(extract(e, lo, w - lo as u16), 8) }
        } else { konst(8, (c & 0xff) as u128) }
    }
    fn byte_cell(e: E) -> Cell {
        if let Some(k) = as_const(e) { k as u64 & 0xff } else {
            let n = node(e);
            if n.op == Op::Extract && n.b % 8 == 0 && n.b / 8 < 256 { sym_cell(n.a, n.b / 8) } else { sym_cell(e, 0) }
        }
    }
    /// cells of [o, o+n) with the write log applied (None for undef handled as UNDEF cells)
    fn read_cells(&mut self, st: &mut State, ob: &Obj, o: u64, n: u64) -> R<Vec<Cell>> {
        let mut v: Vec<Cell> = ob.cells[o as usize..(o + n) as usize].to_vec();
        for l in &ob.log {
            if l.hi <= o || o + n <= l.lo { continue; }
            let m = l.cells.len() as u64;
            // whole-value case
            let mut done = vec![false; v.len()];
            for j in 0..n {
                for k in 0..m {
                    // read byte j is write byte k  iff  off + k == o + j
                    if o + j < k { continue; }
                    let t = o + j - k;
                    if t < l.lo || t + m > l.hi { continue; }
                    let c = eq(l.off, konst(64, t as u128));
                    match as_const(c) {
                        Some(0) => continue,
                        Some(_) => { v[j as usize] = l.cells[k as usize]; done[j as usize] = true; }
                        None => {
                            let (nw, old) = (l.cells[k as usize], v[j as usize]);
                            if nw == old { continue; }
                            if nw == UNDEF || old == UNDEF {
                                let b = self.decide(st, c)?;
                                if b { v[j as usize] = nw; }
                            } else {
                                // keep whole-expression structure when possible
                                let e = ite(c, Self::cell_byte(nw), Self::cell_byte(old));
                                v[j as usize] = Self::byte_cell(e);
                            }
                        }
                    }
                }
            }
            let _ = done;
        }
        Ok(v)
    }
    fn assemble(&mut self, st: &mut State, c: &[Cell]) -> Val {
        let n = c.len();
        if n <= 8 && c.iter().all(|x| *x < 256) {
            let mut v = 0u64;
            for i in (0..n).rev() { v = (v << 8) | c[i]; }
            return Val::I(n as u16 * 8, v);
        }
        if c.iter().all(|x| *x == UNDEF) { return Val::U; }
        if c[0] & SYM != 0 {
            let e = ((c[0] & !SYM) >> 8) as E;
            if width(e) as usize == n * 8 && c.iter().enumerate().all(|(i, x)| *x == sym_cell(e, i as u32)) { return Val::S(e); }
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let b = if c[i] == UNDEF { self.fresh_uninit(st, 8) } else { Self::cell_byte(c[i]) };
            acc = Some(match acc { None => b, Some(a) => concat(b, a) });
        }
        // collapse concat of ites with the same condition, low to high
        norm(lift_ite(acc.unwrap()))
    }
    /// Read one whole value of n bytes at concrete offset, keeping ite structure at value level.
    fn read_val(&mut self, st: &mut State, ob: &Obj, o: u64, n: u64) -> R<Val> {
        let over: Vec<&LogEnt> = ob.log.iter().filter(|l| !(l.hi <= o || o + n <= l.lo)).collect();
        if over.is_empty() { let c = &ob.cells[o as usize..(o + n) as usize]; return Ok(self.assemble(st, c)); }
        let aligned = over.iter().all(|l| {
            let m = l.cells.len() as u64;
            m == n && n.is_power_of_two() && (node(l.off).kz & (n - 1)) == n - 1 && o % n == 0
        });
        if aligned {
            let c = &ob.cells[o as usize..(o + n) as usize];
            let mut v = self.assemble(st, c);
            for l in over {
                let c = eq(l.off, konst(64, o as u128));
                match as_const(c) {
                    Some(0) => {}
                    Some(_) => v = self.assemble(st, &l.cells),
                    None => {
                        let nv = self.assemble(st, &l.cells);
                        v = self.ite_val(st, c, &nv, &v)?;
                    }
                }
            }
            return Ok(v);
        }
        let c = self.read_cells(st, ob, o, n)?;
        Ok(self.assemble(st, &c))
    }
    fn ite_val(&mut self, st: &mut State, c: E, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::I(w, x), Val::I(w2, y)) if w == w2 && x == y => Ok(a.clone()),
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) { v.push(self.ite_val(st, c, p, q)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            (Val::U, Val::U) => Ok(Val::U),
            (Val::U, _) | (_, Val::U) => { if self.decide(st, c)? { Ok(a.clone()) } else { Ok(b.clone()) } }
            (Val::Agg(_), _) | (_, Val::Agg(_)) => { if self.decide(st, c)? { Ok(a.clone()) } else { Ok(b.clone()) } }
            _ => Ok(norm(ite(c, ex(a), ex(b)))),
        }
    }
    fn load_bytes(&mut self, st: &mut State, acc: &Acc, n: u64) -> R<Val> {
        match acc {
            Acc::C(r, o) => {
                let ob = self.obj(st, *r)?;
                self.read_val(st, &ob, *o, n)
            }
            Acc::S(r, off) => {
                let ob = self.obj(st, *r)?;
                let off = *off;
                let cand = match Self::cands(off, ob.size, n) {
                    Some(c) => c,
                    None => { let k = self.concretize(st, off)?; return self.read_val(st, &ob, k, n); }
                };
                // log must be uniform to stay symbolic
                let ok = ob.log.iter().all(|l| {
                    let m = l.cells.len() as u64;
                    m == n && n.is_power_of_two() && (node(l.off).kz & (n - 1)) == n - 1 && (node(off).kz & (n - 1)) == n - 1
                        && !l.cells.contains(&UNDEF)
                        || cand.iter().all(|&o| l.hi <= o || o + n <= l.lo)
                });
                if !ok { let k = self.concretize(st, off)?; return self.read_val(st, &ob, k, n); }
                let mut groups: Vec<(Vec<Cell>, Vec<u64>)> = vec![];
                let mut gi: FxMap<Vec<Cell>, usize> = Default::default();
                let mut undef = vec![];
                for &o in &cand {
                    let c = &ob.cells[o as usize..(o + n) as usize];
                    if c.contains(&UNDEF) { undef.push(o); continue; }
                    if let Some(&g) = gi.get(c) { groups[g].1.push(o); } else { gi.insert(c.to_vec(), groups.len()); groups.push((c.to_vec(), vec![o])); }
                }
                let log = ob.log.clone();
                if !undef.is_empty() {
                    let mut c = fls();
                    for (a, b) in runs(&undef, &cand) { c = or(c, in_run(off, a, b)); }
                    // positions overwritten through the log are not undefined
                    if as_const(c) != Some(0) {
                        let mut hit = fls();
                        for l in &log { hit = or(hit, eq(l.off, off)); }
                        c = and(c, not(hit));
                    }
                    if self.decide(st, c)? { return Ok(Val::U); }
                }
                if groups.is_empty() && log.is_empty() { return Err(Fault::Unsup("symbolic read with no candidate".into())); }
                groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                let mut it = groups.into_iter();
                let mut v = match it.next() {
                    Some(g) => { let x = self.assemble(st, &g.0); ex(&x) }
                    None => konst(n as u16 * 8, 0),
                };
                for (c, os) in it {
                    let mut cond = fls();
                    for (a, b) in runs(&os, &cand) { cond = or(cond, in_run(off, a, b)); }
                    let x = self.assemble(st, &c);
                    v = ite(cond, ex(&x), v);
                }
                for l in &log {
                    if l.cells.len() as u64 != n { continue; }
                    let x = self.assemble(st, &l.cells);
                    v = ite(eq(l.off, off), ex(&x), v);
                }
                Ok(norm(v))
            }
        }
    }
    fn put_cells(ob: &mut Obj, o: u64, cells: &[Cell]) {
        let n = cells.len() as u64;
        // drop log entries that are completely overwritten
        ob.log.retain(|l| !(o <= l.lo && l.hi <= o + n));
        if ob.log.iter().any(|l| !(l.hi <= o || o + n <= l.lo)) {
            ob.log.push(LogEnt { off: konst(64, o as u128), lo: o, hi: o + n, cells: Rc::new(cells.to_vec()) });
        } else {
            ob.cells[o as usize..(o + n) as usize].copy_from_slice(cells);
        }
    }
    fn store_cells(&mut self, st: &mut State, acc: &Acc, cells: &[Cell]) -> R<()> {
        match acc {
            Acc::C(r, o) => { let ob = self.obj_mut(st, *r)?; Self::put_cells(ob, *o, cells); }
            Acc::S(r, off) => {
                let ob = self.obj(st, *r)?;
                let cand = Self::cands(*off, ob.size, cells.len() as u64);
                match cand {
                    Some(c) if c.len() > 1 => {
                        let (lo, hi) = (c[0], c[c.len() - 1] + cells.len() as u64);
                        let off = *off;
                        let ob = self.obj_mut(st, *r)?;
                        // an entry at the same symbolic offset and size is superseded
                        if let Some(p) = ob.log.iter().rposition(|l| l.off == off && l.cells.len() == cells.len()) {
                            if p == ob.log.len() - 1 { ob.log.pop(); }
                        }
                        ob.log.push(LogEnt { off, lo, hi, cells: Rc::new(cells.to_vec()) });
                    }
                    _ => {
                        let k = self.concretize(st, *off)?;
                        let ob = self.obj_mut(st, *r)?;
                        Self::put_cells(ob, k, cells);
                    }
                }
            }
        }
        Ok(())
    }
    fn flatten(&mut self, st: &mut State, r: Ref) -> R<()> {
        let ob = self.obj(st, r)?;
        if ob.log.is_empty() { return Ok(()); }
        let c = self.read_cells(st, &ob, 0, ob.size)?;
        let ob = self.obj_mut(st, r)?;
        ob.cells = c;
        ob.log.clear();
        Ok(())
    }
    fn val_cells(&self, v: &Val, n: u64) -> Vec<Cell> {
        match v {
            Val::I(_, x) => (0..n).map(|i| if i < 8 { (x >> (8 * i)) & 0xff } else { 0 }).collect(),
            Val::S(e) => {
                if let Some(k) = as_const(*e) { return (0..n).map(|i| if i < 16 { (k >> (8 * i)) as u64 & 0xff } else { 0 }).collect(); }
                let w = width(*e);
                let e = if (w as u64) < n * 8 { zext(*e, n as u16 * 8) } else { *e };
                (0..n as u32).map(|i| {
                    // constant bytes become constant cells
                    let nn = node(e);
                    if nn.w <= 64 {
                        let k = (nn.kz | nn.ko) >> (8 * i) & 0xff;
                        if k == 0xff { return nn.ko >> (8 * i) & 0xff; }
                    }
                    sym_cell(e, i)
                }).collect()
            }
            _ => vec![UNDEF; n as usize],
        }
    }
    fn load_ty(&mut self, st: &mut State, a: &Val, ty: &Ty, align: u64) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let acc = self.resolve(st, a, ty.size(), align, false, false)?;
                let acc = self.conc_acc(st, acc)?;
                let mut v = vec![];
                for i in 0..ty.nfields() { let (o, t) = ty.field(i); v.push(self.load_at(st, &acc, o, &t)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vec(..) => {
                let acc = self.resolve(st, a, ty.size(), align, false, false)?;
                let acc = self.conc_acc(st, acc)?;
                self.load_at(st, &acc, 0, ty)
            }
            _ => {
                let n = ty.store_size();
                let mut acc = self.resolve(st, a, n, align, false, false)?;
                if let (Ty::Ptr, Acc::S(r, off)) = (ty, &acc) {
                    // pointers: one path per target when there are few
                    let sz = self.obj(st, *r)?.size;
                    if Self::cands(*off, sz, n).map_or(false, |c| c.len() <= self.few_p) { let k = self.concretize(st, *off)?; acc = Acc::C(*r, k); }
                }
                let v = self.load_bytes(st, &acc, n)?;
                Ok(fit(v, ty.bits() as u16))
            }
        }
    }
    fn conc_acc(&mut self, st: &mut State, acc: Acc) -> R<(Ref, u64)> {
        match acc { Acc::C(r, o) => Ok((r, o)), Acc::S(r, e) => { let k = self.concretize(st, e)?; Ok((r, k)) } }
    }
    fn load_at(&mut self, st: &mut State, at: &(Ref, u64), off: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..ty.nfields() { let (o, t) = ty.field(i); v.push(self.load_at(st, at, off + o, &t)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let nb = ty.size();
                let x = self.load_bytes(st, &Acc::C(at.0, at.1 + off), nb)?;
                Ok(from_bits(&x, *n, t.bits() as u16, nb as u16 * 8))
            }
            Ty::Vec(n, t) => {
                let mut v = vec![];
                for i in 0..*n as u64 { v.push(self.load_at(st, at, off + i * t.size(), t)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                let v = self.load_bytes(st, &Acc::C(at.0, at.1 + off), ty.store_size())?;
                Ok(fit(v, ty.bits() as u16))
            }
        }
    }
    fn cells_of(&self, v: &Val, ty: &Ty, out: &mut [Cell], off: u64) {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => {
                if let Val::Agg(vs) = v {
                    for i in 0..ty.nfields() { let (o, t) = ty.field(i); self.cells_of(&vs[i as usize], &t, out, off + o); }
                }
            }
            Ty::Vec(_, t) if t.bits() % 8 != 0 => {
                let x = to_bits(v, t.bits() as u16);
                let c = self.val_cells(&x, ty.size());
                out[off as usize..off as usize + c.len()].copy_from_slice(&c);
            }
            Ty::Vec(n, t) => {
                if let Val::Agg(vs) = v { for i in 0..*n as u64 { self.cells_of(&vs[i as usize], t, out, off + i * t.size()); } }
            }
            _ => {
                let c = self.val_cells(v, ty.store_size());
                out[off as usize..off as usize + c.len()].copy_from_slice(&c);
            }
        }
    }
    fn store_ty(&mut self, st: &mut State, a: &Val, v: &Val, ty: &Ty, align: u64) -> R<()> {
        let n = ty.store_size();
        // symbolic plain data (mask words) does not shape the heap
        let plain = matches!((v, ty), (Val::S(_), Ty::Int(_)));
        let mut acc = self.resolve(st, a, n, align, true, plain)?;
        if !matches!(ty, Ty::Int(_) | Ty::Ptr) { let (r, o) = self.conc_acc(st, acc)?; acc = Acc::C(r, o); }
        let mut c = vec![UNDEF; n as usize];
        self.cells_of(v, ty, &mut c, 0);
        self.store_cells(st, &acc, &c)
    }
    fn conc_val(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(_, x) => Ok(*x),
            Val::S(e) => self.concretize(st, *e),
            _ => Err(Fault::Viol("uninit".into(), "length or size is uninitialised".into())),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: &Val, s: &Val, n: &Val, mv: bool) -> R<()> {
        let n = self.conc_val(st, n)?;
        if n == 0 { return Ok(()); }
        let sa = self.resolve(st, s, n, 1, false, false)?;
        let (sr, so) = self.conc_acc(st, sa)?;
        let da = self.resolve(st, d, n, 1, true, false)?;
        let (dr, dof) = self.conc_acc(st, da)?;
        if sr == dr {
            if !mv && so != dof && so < dof + n && dof < so + n { return Err(Fault::Viol("overlap".into(), "memcpy with overlapping ranges".into())); }
            let ob = self.obj(st, sr)?;
            if ob.log.iter().any(|l| !(l.hi <= so || so + n <= l.lo) || !(l.hi <= dof || dof + n <= l.lo)) { self.flatten(st, sr)?; }
            let ob = self.obj_mut(st, sr)?;
            ob.cells.copy_within(so as usize..(so + n) as usize, dof as usize);
            return Ok(());
        }
        let so_ob = self.obj(st, sr)?;
        let mut moved = vec![];
        let mut cells = None;
        for l in &so_ob.log {
            if l.hi <= so || so + n <= l.lo { continue; }
            if so <= l.lo && l.hi <= so + n { moved.push(l.clone()); } else { cells = Some(()); break; }
        }
        let cells = if cells.is_some() { moved.clear(); self.read_cells(st, &so_ob, so, n)? } else { so_ob.cells[so as usize..(so + n) as usize].to_vec() };
        {
            let ob = self.obj(st, dr)?;
            if ob.log.iter().any(|l| !(l.hi <= dof || dof + n <= l.lo) && !(dof <= l.lo && l.hi <= dof + n)) { self.flatten(st, dr)?; }
        }
        let ob = self.obj_mut(st, dr)?;
        Self::put_cells(ob, dof, &cells);
        for mut l in moved {
            let delta = dof.wrapping_sub(so);
            l.off = add(l.off, konst(64, delta as u128));
            l.lo = l.lo.wrapping_add(delta);
            l.hi = l.hi.wrapping_add(delta);
            ob.log.push(l);
        }
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > 1 << 26 { return Err(Fault::Viol("huge-allocation".into(), format!("allocation of {} bytes", size))); }
        if !align.is_power_of_two() { return Err(Fault::Viol("bad-layout".into(), format!("allocation with alignment {}", align))); }
        let base = round(st.next_heap + 64, align.max(16));
        // keep the natural alignment exact so that over-alignment is not relied upon
        let base = if align < 16 { base + if size % 16 == 0 { 0 } else { 0 } } else { base };
        st.next_heap = base + size;
        st.heap.push(Rc::new(Obj { base, size, align, kind: Kind::Heap, live: true, cells: vec![if zero { 0 } else { UNDEF }; size as usize], log: vec![] }));
        Ok(base)
    }
    fn dealloc(&mut self, st: &mut State, p: u64, size: Option<(u64, u64)>) -> R<()> {
        match self.find(st, p)? {
            Some(Ref::H(i)) if st.heap[i].base == p => {
                let o = &st.heap[i];
                if !o.live { return Err(Fault::Viol("double-free".into(), "deallocation of already freed memory".into())); }
                if let Some((s, a)) = size {
                    if o.size != s || o.align != a {
                        return Err(Fault::Viol("bad-dealloc".into(), format!("deallocated with size {} align {} but allocated with size {} align {}", s, a, o.size, o.align)));
                    }
                }
                let (base, sz, al) = (o.base, o.size, o.align);
                st.heap[i] = Rc::new(Obj { base, size: sz, align: al, kind: Kind::Heap, live: false, cells: vec![], log: vec![] });
                Ok(())
            }
            _ => Err(Fault::Viol("bad-free".into(), format!("deallocation of a non-heap pointer {:#x}", p))),
        }
    }
    fn realloc(&mut self, st: &mut State, p: u64, old: Option<(u64, u64)>, new: u64, align: u64) -> R<u64> {
        if let Some((s, a)) = old { if let Some(Ref::H(i)) = self.find(st, p)? {
            let o = &st.heap[i];
            if o.base == p && o.live && (o.size != s || o.align != a) {
                return Err(Fault::Viol("bad-dealloc".into(), format!("reallocated with size {} align {} but allocated with size {} align {}", s, a, o.size, o.align)));
            }
        } }
        let osz = match self.find(st, p)? { Some(Ref::H(i)) => { if new < st.heap[i].size { self.flatten(st, Ref::H(i))?; } st.heap[i].size } _ => 0 };
        let q = self.alloc(st, new, align, false)?;
        let n = osz.min(new);
        self.memcpy(st, &Val::I(64, q), &Val::I(64, p), &Val::I(64, n), false)?;
        self.dealloc(st, p, None)?;
        Ok(q)
    }
    pub fn read_str(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut s = String::new();
        if let Ok(Some(r)) = self.find(st, p) { if let Ok(o) = self.obj(st, r) {
            let off = p - o.base;
            for i in 0..n.min(400) {
                match o.cells.get((off + i) as usize) { Some(&c) if c < 256 => s.push(c as u8 as char), _ => break }
            }
        } }
        s
    }
    fn read_u64(&mut self, st: &State, p: u64, n: u64) -> Option<u64> {
        if let Ok(Some(r)) = self.find(st, p) { if let Ok(o) = self.obj(st, r) {
            let off = p - o.base;
            let mut v = 0u64;
            for i in (0..n).rev() { match o.cells.get((off + i) as usize) { Some(&c) if c < 256 => v = v << 8 | c, _ => return None } }
            return Some(v);
        } }
        None
    }
    fn panic_msg(&mut self, st: &State, name: &str, args: &[Val]) -> String {
        let mut s = String::new();
        let c = |v: &Val| if let Val::I(_, x) = v { Some(*x) } else { None };
        // core::fmt::Arguments is (template ptr, args or 2*len+1)
        if args.len() >= 2 {
            if let (Some(p), Some(q)) = (c(&args[0]), c(&args[1])) {
                if q & 1 == 1 && q < 4096 { s = self.read_str(st, p, q >> 1); }
                else if (name.contains("panic_str") || name.contains("9panicking5panic") || name.contains("expect_failed")) && q < 4096 { s = self.read_str(st, p, q); }
                else { s = self.read_str(st, p, 160).chars().take_while(|c| *c != '\0').map(|c| if c.is_ascii_graphic() || c == ' ' { c } else { '?' }).collect(); }
            }
        }
        let mut loc = String::new();
        if let Some(l) = args.last().and_then(c) {
            if let (Some(p), Some(n), Some(line), Some(col)) = (self.read_u64(st, l, 8), self.read_u64(st, l + 8, 8), self.read_u64(st, l + 16, 4), self.read_u64(st, l + 20, 4)) {
                if n < 400 { loc = format!(" at {}:{}:{}", self.read_str(st, p, n).trim_end_matches('\0'), line, col); }
            }
        }
        let f = name.split("9panicking").last().unwrap_or(name);
        let f: String = f.trim_start_matches(|c: char| c.is_ascii_digit()).to_string();
        let s = s.split("\n\nThis indicates").next().unwrap_or("").to_string();
        format!("{}{} [{}]", s, loc, f)
    }

    // ---------- operands ----------
    #[inline]
    fn opd(fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::Local(i) => fr.regs[*i as usize].clone(),
            Opd::Int(w, v) => if *w <= 64 { Val::I(*w, *v as u64) } else { Val::S(konst(*w, *v)) },
            Opd::Undef | Opd::Meta => Val::U,
            Opd::Agg(v) => Val::Agg(Rc::new(v.iter().map(|x| Self::opd(fr, x)).collect())),
            Opd::Zero(t) => zero(t),
        }
    }

    // ---------- main loop ----------
    /// Run one state until it ends. Pushes forked siblings on self.work.
    pub fn run(&mut self, mut st: State, yield_: &mut dyn FnMut(&mut Self)) -> Result<(), (State, Fault)> {
        let s0 = st.steps;
        let mut tick = 0u32;
        let r = loop {
            match self.step(&mut st) {
                Ok(true) => {}
                Ok(false) => break Ok(()),
                Err(f) => break Err(f),
            }
            tick += 1;
            if tick & 0xff == 0 && !self.work.is_empty() { yield_(self); }
            if st.steps > self.max_steps {
                break Err(Fault::Viol("nontermination".into(), format!("no end after {} interpreted instructions", self.max_steps)));
            }
        };
        self.stats.steps += st.steps - s0;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        match r {
            Ok(()) => {
                self.stats.paths += 1;
                if self.fixed.is_none() && self.every > 0 && (self.stats.paths - 1) % self.every == 0 { if let Err(e) = self.selfcheck(&st, None) { return Err((st, Fault::Unsup(e))); } }
                Ok(())
            }
            Err(Fault::Infeasible) => { self.stats.infeasible += 1; Ok(()) }
            Err(f) => Err((st, f)),
        }
    }
    fn end(&mut self, st: &mut State) -> R<()> {
        if st.leak_check {
            if let Some(o) = st.heap.iter().find(|o| o.live) {
                return Err(Fault::Viol("leak".into(), format!("{} heap objects still allocated at the end, first of {} bytes", st.heap.iter().filter(|o| o.live).count(), o.size)));
            }
        }
        self.stats.completed += 1;
        Ok(())
    }
    fn goto(&mut self, st: &mut State, t: u32) -> R<()> {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.blk;
        let f = fr.f.clone();
        let b = &f.blocks[t as usize];
        if b.nphi > 0 {
            let mut tmp: [Option<(u32, Val)>; 8] = Default::default();
            let mut big = vec![];
            for k in 0..b.nphi {
                if let Ins::Phi { inc, .. } = &b.ins[k].ins {
                    let v = match inc.iter().find(|x| x.1 == from) { Some(x) => Self::opd(fr, &x.0), None => return Err(Fault::Unsup("phi without edge".into())) };
                    if k < 8 { tmp[k] = Some((b.ins[k].dst, v)); } else { big.push((b.ins[k].dst, v)); }
                }
            }
            for x in tmp { if let Some((d, v)) = x { fr.regs[d as usize] = v; } }
            for (d, v) in big { fr.regs[d as usize] = v; }
        }
        fr.blk = t;
        fr.ip = b.nphi as u32;
        self.mark(&f, t);
        self.note_block(st, f.id, t);
        Ok(())
    }
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        let v = match v { Val::S(e) if !st.known.is_empty() => norm(simp(st, e)), v => v };
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != NODST { fr.regs[d as usize] = v; }
        fr.ip += 1;
    }
    /// Finish a call instruction in the current frame (after an intercepted function).
    fn ret_to(&mut self, st: &mut State, v: Val) -> R<()> {
        let (dst, inv) = {
            let fr = st.frames.last().unwrap();
            let i = &fr.f.blocks[fr.blk as usize].ins[fr.ip as usize];
            (i.dst, if let Ins::Call { inv, .. } = &i.ins { *inv } else { None })
        };
        self.set(st, dst, v);
        if let Some((n, _)) = inv { self.goto(st, n)?; }
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) -> Rc<Frame> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stack_base);
        fr
    }
    /// Start or continue unwinding from the current frame's call instruction.
    fn unwind(&mut self, st: &mut State) -> R<bool> {
        loop {
            let inv = {
                let fr = match st.frames.last() { Some(f) => f, None => return Ok(false) };
                match &fr.f.blocks[fr.blk as usize].ins[fr.ip as usize].ins { Ins::Call { inv, .. } => *inv, _ => None }
            };
            if let Some((_, u)) = inv {
                st.unwinding = true;
                self.goto(st, u)?;
                return Ok(true);
            }
            let fr = self.pop_frame(st);
            if fr.catch {
                // the frame below is at its call to sym_catch
                st.unwinding = false;
                self.ret_to(st, Val::I(1, 1))?;
                return Ok(true);
            }
            if st.frames.is_empty() {
                if st.expect_panic { self.stats.panicked_ok += 1; return Ok(false); }
                return Err(Fault::Viol("panic".into(), "unwound out of the harness".into()));
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<bool> {
        st.steps += 1;
        let f = st.frames.last().unwrap().f.clone();
        let (blk, ip) = { let fr = st.frames.last().unwrap(); (fr.blk, fr.ip) };
        let inst = &f.blocks[blk as usize].ins[ip as usize];
        let dst = inst.dst;
        macro_rules! o { ($x:expr) => { Self::opd(st.frames.last().unwrap(), $x) } }
        match &inst.ins {
            Ins::Bin { op, ty, a, b } => {
                let (x, y) = (o!(a), o!(b));
                let v = binop(*op, ty, &x, &y)?;
                self.set(st, dst, v);
            }
            Ins::Icmp { pred, ty, a, b } => {
                let (x, y) = (o!(a), o!(b));
                let v = if let Ty::Vec(..) = ty {
                    match (&x, &y) {
                        (Val::Agg(p), Val::Agg(q)) => Val::Agg(Rc::new(p.iter().zip(q.iter()).map(|(i, j)| icmp(*pred, i, j)).collect::<Vec<_>>())),
                        _ => Val::U,
                    }
                } else { icmp(*pred, &x, &y) };
                self.set(st, dst, v);
            }
            Ins::Load { ty, p, align } => {
                let a = o!(p);
                let v = self.load_ty(st, &a, ty, *align)?;
                self.set(st, dst, v);
            }
            Ins::Store { ty, v, p, align } => {
                let (v, a) = (o!(v), o!(p));
                self.store_ty(st, &a, &v, ty, *align)?;
                self.set(st, NODST, Val::U);
            }
            Ins::Gep { p, off, terms } => {
                let base = o!(p);
                let mut undef = false;
                let mut cacc = *off as u64;
                let mut sacc: Option<E> = None;
                match &base { Val::I(_, b) => cacc = cacc.wrapping_add(*b), Val::S(e) => sacc = Some(*e), _ => undef = true }
                for (t, w, s) in terms {
                    match o!(t) {
                        Val::I(_, x) => cacc = cacc.wrapping_add((sext128(x as u128, *w) as i64).wrapping_mul(*s) as u64),
                        Val::S(e) => {
                            let e = if *w < 64 { sext(e, 64) } else if *w > 64 { extract(e, 0, 64) } else { e };
                            let t = bin(Op::Mul, e, konst(64, *s as u64 as u128));
                            sacc = Some(match sacc { Some(a) => add(a, t), None => t });
                        }
                        _ => undef = true,
                    }
                }
                let v = if undef { Val::U } else {
                    match sacc { None => Val::I(64, cacc), Some(e) => norm(add(e, konst(64, cacc as u128))) }
                };
                self.set(st, dst, v);
            }
            Ins::Cast { op, from, to, a } => {
                let x = o!(a);
                let v = cast(*op, from, to, &x)?;
                self.set(st, dst, v);
            }
            Ins::Select { c, cty, ty: _, a, b } => {
                let (cv, x, y) = (o!(c), o!(a), o!(b));
                let v = if let Ty::Vec(..) = cty {
                    match (&cv, &x, &y) {
                        (Val::Agg(cs), Val::Agg(p), Val::Agg(q)) => {
                            let mut r = vec![];
                            for i in 0..cs.len() {
                                r.push(match &cs[i] { Val::I(_, k) => if *k != 0 { p[i].clone() } else { q[i].clone() }, Val::S(e) => self.ite_val(st, *e, &p[i], &q[i])?, _ => Val::U });
                            }
                            Val::Agg(Rc::new(r))
                        }
                        _ => Val::U,
                    }
                } else {
                    match cv {
                        Val::I(_, k) => if k != 0 { x } else { y },
                        Val::S(e) => self.ite_val(st, e, &x, &y)?,
                        _ => Val::U,
                    }
                };
                self.set(st, dst, v);
            }
            Ins::Br { t } => self.goto(st, *t)?,
            Ins::CondBr { c, t, f } => {
                let b = match o!(c) {
                    Val::I(_, k) => k != 0,
                    Val::S(e) => self.decide(st, e)?,
                    _ => return Err(Fault::Viol("uninit".into(), "branch on an uninitialised value".into())),
                };
                self.goto(st, if b { *t } else { *f })?;
            }
            Ins::Switch { w, v, d, cases } => {
                let t = match o!(v) {
                    Val::I(_, k) => cases.iter().find(|c| c.0 as u64 == k).map_or(*d, |c| c.1),
                    Val::S(e) => {
                        let mv = st.model.eval(e);
                        match cases.iter().find(|c| c.0 == mv) {
                            Some(c) => {
                                let q = eq(e, konst(*w, c.0));
                                if !self.decide(st, q)? { return Err(Fault::Unsup("switch".into())); }
                                c.1
                            }
                            None => {
                                let mut q = fls();
                                for c in cases { q = or(q, eq(e, konst(*w, c.0))); }
                                if self.decide(st, q)? { return Err(Fault::Unsup("switch".into())); }
                                *d
                            }
                        }
                    }
                    _ => return Err(Fault::Viol("uninit".into(), "switch on an uninitialised value".into())),
                };
                self.goto(st, t)?;
            }
            Ins::Alloca { ty, n, align } => {
                let k = match o!(n) { Val::I(_, k) => k, _ => return Err(Fault::Unsup("alloca count".into())) };
                let size = ty.size() * k;
                let base = round(st.next_stack + 64, (*align).max(16));
                let base = if st.stack.is_empty() { base } else { let l = st.stack.last().unwrap(); round(l.base + l.size + 64, (*align).max(16)) };
                st.stack.push(Rc::new(Obj { base, size, align: *align, kind: Kind::Stack, live: true, cells: vec![UNDEF; size as usize], log: vec![] }));
                self.set(st, dst, Val::I(64, base));
            }
            Ins::Extract { a, idx, .. } => {
                let mut v = o!(a);
                for i in idx { v = match v { Val::Agg(x) => x[*i as usize].clone(), _ => Val::U }; }
                self.set(st, dst, v);
            }
            Ins::Insert { ty, a, v, idx } => {
                let (a, v) = (o!(a), o!(v));
                let r = insert(ty, &a, v, idx);
                self.set(st, dst, r);
            }
            Ins::ExtractElt { a, i } => {
                let a = o!(a);
                let i = o!(i);
                let i = self.conc_val(st, &i)?;
                let v = match a { Val::Agg(x) => x[i as usize].clone(), _ => Val::U };
                self.set(st, dst, v);
            }
            Ins::InsertElt { n, a, v, i } => {
                let (a, v, i) = (o!(a), o!(v), o!(i));
                let i = self.conc_val(st, &i)?;
                let mut x = match a { Val::Agg(x) => (*x).clone(), _ => vec![Val::U; *n as usize] };
                x[i as usize] = v;
                self.set(st, dst, Val::Agg(Rc::new(x)));
            }
            Ins::Shuffle { n, a, b, mask } => {
                let (a, b) = (o!(a), o!(b));
                let g = |k: u32| -> Val {
                    let (s, i) = if k < *n { (&a, k) } else { (&b, k - n) };
                    match s { Val::Agg(x) => x[i as usize].clone(), _ => Val::U }
                };
                let v = mask.iter().map(|m| m.map_or(Val::U, g)).collect::<Vec<_>>();
                self.set(st, dst, Val::Agg(Rc::new(v)));
            }
            Ins::Freeze { ty, a } => {
                let v = o!(a);
                let v = match (&v, ty) { (Val::U, Ty::Int(_) | Ty::Ptr) => Val::S(self.fresh_uninit(st, ty.bits() as u16)), _ => v };
                self.set(st, dst, v);
            }
            Ins::Ret { v } => {
                let v = match v { Some(v) => o!(v), None => Val::U };
                let fr = self.pop_frame(st);
                if st.frames.is_empty() { self.end(st)?; return Ok(false); }
                let v = if fr.catch { Val::I(1, 0) } else { v };
                self.ret_to(st, v)?;
            }
            Ins::Call { ret, f, args, .. } => {
                let mut av = Vec::with_capacity(args.len());
                for (_, a) in args { av.push(o!(a)); }
                return self.call(st, ret, f, args, av);
            }
            Ins::Nop => self.set(st, NODST, Val::U),
            Ins::Unreachable => return Err(Fault::Viol("unreachable".into(), "reached `unreachable` (undefined behaviour)".into())),
            Ins::LandingPad { cleanup: _ } => {
                let v = Val::Agg(Rc::new(vec![Val::I(64, 0xdead0), Val::I(32, 1)]));
                self.set(st, dst, v);
            }
            Ins::Resume { .. } => {
                let fr = self.pop_frame(st);
                if fr.catch {
                    st.unwinding = false;
                    self.ret_to(st, Val::I(1, 1))?;
                    return Ok(true);
                }
                if st.frames.is_empty() {
                    if st.expect_panic { self.stats.panicked_ok += 1; return Ok(false); }
                    return Err(Fault::Viol("panic".into(), "unwound out of the harness".into()));
                }
                return self.unwind(st);
            }
            Ins::AtomicRmw { op, ty, p, v } => {
                let (p, v) = (o!(p), o!(v));
                let old = self.load_ty(st, &p, ty, 1)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => binop(Bin::Add, ty, &old, &v)?,
                    "sub" => binop(Bin::Sub, ty, &old, &v)?,
                    "and" => binop(Bin::And, ty, &old, &v)?,
                    "or" => binop(Bin::Or, ty, &old, &v)?,
                    _ => return Err(Fault::Unsup(format!("atomicrmw {}", op))),
                };
                self.store_ty(st, &p, &new, ty, 1)?;
                self.set(st, dst, old);
            }
            Ins::CmpXchg { ty, p, c, n } => {
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let old = self.load_ty(st, &p, ty, 1)?;
                let e = icmp(Pred::Eq, &old, &c);
                let b = match e { Val::I(_, k) => k != 0, Val::S(e) => self.decide(st, e)?, _ => false };
                if b { self.store_ty(st, &p, &n, ty, 1)?; }
                self.set(st, dst, Val::Agg(Rc::new(vec![old, Val::I(1, b as u64)])));
            }
            Ins::Phi { .. } => return Err(Fault::Unsup("stray phi".into())),
            Ins::Bad(s) => return Err(Fault::Unsup(s.clone())),
        }
        Ok(true)
    }

    fn call(&mut self, st: &mut State, ret: &Ty, f: &Callee, args: &[(Ty, Opd)], av: Vec<Val>) -> R<bool> {
        let (fi, name): (Option<usize>, Rc<str>) = match f {
            Callee::Direct(n) => (self.m.fmap.get(n).copied(), n.clone()),
            Callee::Indirect(o) => {
                let v = Self::opd(st.frames.last().unwrap(), o);
                let a = self.conc_val(st, &v)?;
                let k = (a.wrapping_sub(0x1000) / 16) as usize;
                if a < 0x1000 || a % 16 != 0 || k >= self.m.funcs.len() { return Err(Fault::Viol("bad-call".into(), format!("call through {:#x}", a))); }
                (Some(k), self.m.funcs[k].name.clone())
            }
        };
        if name.starts_with("llvm.") { return self.intrinsic(st, ret, &name, args, av); }
        let fi = match fi {
            Some(i) => i,
            None => match self.m.aliases.get(&name) {
                Some(&(a, b)) => {
                    let t = &self.m.text[a..b];
                    let n = t.rsplit('@').next().unwrap().split(|c: char| c == ',' || c == ' ').next().unwrap().trim_matches('"');
                    *self.m.fmap.get(n).ok_or(Fault::Unsup(format!("alias {}", name)))?
                }
                None => return Err(Fault::Unsup(format!("call to unknown {}", name))),
            },
        };
        let kind = match self.kinds.get(&fi) {
            Some(k) => *k,
            None => {
                let mut k = classify(&name);
                if k == Ext::Body && !self.m.funcs[fi].body { k = Ext::Unsupported; }
                self.kinds.insert(fi, k);
                k
            }
        };
        macro_rules! cv { ($i:expr) => { self.conc_val(st, &av[$i])? } }
        let w1 = |v: &Val| -> R<E> { match v { Val::I(_, k) => Ok(konst(1, (*k & 1) as u128)), Val::S(e) => Ok(if width(*e) == 1 { *e } else { extract(*e, 0, 1) }), _ => Err(Fault::Viol("uninit".into(), "condition is uninitialised".into())) } };
        let r = match kind {
            Ext::Body => {
                let func = self.m.func(fi).map_err(Fault::Unsup)?;
                return self.enter(st, func, av, false);
            }
            Ext::SymBits => {
                let w = cv!(0) as u16;
                let n = st.syms.len();
                if let Some(v) = &self.fixed {
                    let k = v.get(n).copied().unwrap_or(0) & mask64(w);
                    st.syms.push(konst(w, k as u128));
                    self.ret_to(st, Val::I(64, k))?;
                    return Ok(true);
                }
                let e = *self.symtab.entry((n, w)).or_insert_with(|| new_sym(w, false));
                st.syms.push(e);
                norm(zext(e, 64))
            }
            Ext::Assume => {
                let c = w1(&av[0])?;
                match as_const(c) {
                    Some(0) => return Err(Fault::Infeasible),
                    Some(_) => {}
                    None => {
                        if st.model.eval(c) == 0 {
                            match self.check(st, c)? { Some(m) => st.model = Rc::new(Model::new(m)), None => return Err(Fault::Infeasible) }
                        }
                        self.assume(st, c);
                    }
                }
                Val::U
            }
            Ext::Assert => {
                st.asserts += 1;
                self.stats.asserts += 1;
                let id = match &av[1] { Val::I(_, k) => *k, _ => 0 };
                let c = simp(st, w1(&av[0])?);
                if as_const(c) != Some(1) {
                    self.stats.assert_queries += 1;
                    self.taint_check(st, c, "asserted condition")?;
                    let nc = not(c);
                    let bad = if st.model.eval(nc) == 1 { Some(st.model.vals.clone()) } else { self.check(st, nc)? };
                    if let Some(m) = bad {
                        st.model = Rc::new(Model::new(m));
                        return Err(Fault::Viol("assert".into(), format!("assertion {} failed", id)));
                    }
                }
                Val::U
            }
            Ext::IteV => {
                let c = w1(&av[0])?;
                match as_const(c) { Some(0) => av[2].clone(), Some(_) => av[1].clone(), None => self.ite_val(st, c, &av[1], &av[2])? }
            }
            Ext::Cover => { let k = cv!(0); *self.covers.entry(k).or_insert(0) += 1; Val::U }
            Ext::ExpectPanic => { st.expect_panic = cv!(0) & 1 != 0; Val::U }
            Ext::NoLeak => { st.leak_check = false; Val::U }
            Ext::Note => { let k = cv!(0); st.notes.push((k, av[1].clone())); Val::U }
            Ext::Conc => Val::I(64, cv!(0)),
            Ext::LiveHeap => Val::I(64, st.heap.iter().filter(|o| o.live).map(|o| o.size).sum()),
            Ext::Throw => return self.unwind(st),
            Ext::Catch => {
                let fa = cv!(0);
                let k = (fa.wrapping_sub(0x1000) / 16) as usize;
                let func = self.m.func(k).map_err(Fault::Unsup)?;
                return self.enter(st, func, vec![av[1].clone()], true);
            }
            Ext::Alloc => { let (s, a) = (cv!(0), cv!(1)); Val::I(64, self.alloc(st, s, a, false)?) }
            Ext::AllocZ => { let (s, a) = (cv!(0), cv!(1)); Val::I(64, self.alloc(st, s, a, true)?) }
            Ext::Dealloc => { let (p, s, a) = (cv!(0), cv!(1), cv!(2)); self.dealloc(st, p, Some((s, a)))?; Val::U }
            Ext::Realloc => { let (p, s, a, n) = (cv!(0), cv!(1), cv!(2), cv!(3)); Val::I(64, self.realloc(st, p, Some((s, a)), n, a)?) }
            Ext::Malloc => { let s = cv!(0); Val::I(64, self.alloc(st, s, 16, false)?) }
            Ext::CallocE => { let s = cv!(0) * cv!(1); Val::I(64, self.alloc(st, s, 16, true)?) }
            Ext::Free => { let p = cv!(0); if p != 0 { self.dealloc(st, p, None)?; } Val::U }
            Ext::ReallocE => { let (p, n) = (cv!(0), cv!(1)); Val::I(64, self.realloc(st, p, None, n, 16)?) }
            Ext::PosixMemalign => {
                let (a, s) = (cv!(1), cv!(2));
                let p = self.alloc(st, s, a, false)?;
                self.store_ty(st, &av[0], &Val::I(64, p), &Ty::Ptr, 8)?;
                Val::I(32, 0)
            }
            Ext::Panic => {
                let msg = self.panic_msg(st, &name, &av);
                let ub = msg.contains("unsafe precondition") || name.contains("panic_nounwind") || &*name == "abort" || name.contains("trap");
                if st.expect_panic && !ub {
                    let has_inv = st.frames.iter().any(|f| f.catch || matches!(&f.f.blocks[f.blk as usize].ins[f.ip as usize].ins, Ins::Call { inv: Some(_), .. }));
                    if has_inv { return self.unwind(st); }
                    self.stats.panicked_ok += 1;
                    self.stats.completed += 1;
                    return Ok(false);
                }
                if !ub && st.frames.iter().any(|f| f.catch) { return self.unwind(st); }
                return Err(Fault::Viol(if ub { "ub-check" } else { "panic" }.into(), msg));
            }
            Ext::Bcmp | Ext::Memcmp => {
                let n = cv!(2);
                let mut c = tru();
                let mut res = konst(32, 0);
                let mut bytes = vec![];
                for i in 0..n {
                    let p = binop(Bin::Add, &Ty::Ptr, &av[0], &Val::I(64, i))?;
                    let q = binop(Bin::Add, &Ty::Ptr, &av[1], &Val::I(64, i))?;
                    let x = self.load_ty(st, &p, &Ty::Int(8), 1)?;
                    let y = self.load_ty(st, &q, &Ty::Int(8), 1)?;
                    if matches!(x, Val::U) || matches!(y, Val::U) { return Err(Fault::Viol("uninit".into(), "memcmp of uninitialised bytes".into())); }
                    bytes.push((ex(&x), ex(&y)));
                    c = and(c, eq(ex(&x), ex(&y)));
                }
                if kind == Ext::Bcmp { norm(ite(c, konst(32, 0), konst(32, 1))) } else {
                    for (x, y) in bytes.into_iter().rev() {
                        res = ite(eq(x, y), res, ite(ult(x, y), konst(32, 0xffff_ffff), konst(32, 1)));
                    }
                    norm(res)
                }
            }
            Ext::Strlen => {
                let mut n = 0;
                let p = cv!(0);
                while self.read_u64(st, p + n, 1).map_or(false, |b| b != 0) { n += 1; }
                Val::I(64, n)
            }
            Ext::Memcpy => { self.memcpy(st, &av[0], &av[1], &av[2], &*name == "memmove")?; av[0].clone() }
            Ext::Memset => { self.memset(st, &av[0], &av[1], &av[2])?; av[0].clone() }
            Ext::Unsupported | Ext::None => return Err(Fault::Unsup(format!("call to external {}", name))),
        };
        self.ret_to(st, r)?;
        Ok(true)
    }
    fn enter(&mut self, st: &mut State, func: Rc<Func>, av: Vec<Val>, catch: bool) -> R<bool> {
        if st.frames.len() > 400 { return Err(Fault::Viol("nontermination".into(), "call depth over 400".into())); }
        let mut regs = vec![Val::U; func.nlocals as usize];
        for (p, v) in func.params.iter().zip(av) { regs[*p as usize] = v; }
        let sb = st.stack.len();
        self.mark(&func, 0);
        self.note_block(st, func.id, 0);
        st.frames.push(Rc::new(Frame { f: func, blk: 0, ip: 0, regs, stack_base: sb, catch }));
        Ok(true)
    }
    fn memset(&mut self, st: &mut State, d: &Val, v: &Val, n: &Val) -> R<()> {
        let n = self.conc_val(st, n)?;
        if n == 0 { return Ok(()); }
        let a = self.resolve(st, d, n, 1, true, false)?;
        let (r, o) = self.conc_acc(st, a)?;
        let c = self.val_cells(v, 1)[0];
        let ob = self.obj(st, r)?;
        if ob.log.iter().any(|l| !(l.hi <= o || o + n <= l.lo) && !(o <= l.lo && l.hi <= o + n)) { self.flatten(st, r)?; }
        let ob = self.obj_mut(st, r)?;
        Self::put_cells(ob, o, &vec![c; n as usize]);
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, ret: &Ty, name: &str, args: &[(Ty, Opd)], av: Vec<Val>) -> R<bool> {
        let base: &str = {
            let t = &name[5..];
            // strip type suffixes
            let mut e = t.len();
            loop {
                match t[..e].rfind('.') {
                    Some(k) => {
                        let s = &t[k + 1..e];
                        let isty = s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) && s.len() > 1
                            || (s.starts_with('v') && s[1..].bytes().next().map_or(false, |c| c.is_ascii_digit())) || (s.starts_with('p') && s[1..].bytes().all(|c| c.is_ascii_digit()) && s.len() > 1)
                            || s == "p0";
                        if isty { e = k; } else { break; }
                    }
                    None => break,
                }
            }
            &t[..e]
        };
        // element-wise vectors
        if let Ty::Vec(n, et) = ret {
            if matches!(base, "ctpop" | "cttz" | "ctlz" | "umin" | "umax" | "smin" | "smax" | "fshl" | "fshr" | "abs" | "usub.sat" | "uadd.sat" | "bswap" | "bitreverse") {
                let mut out = vec![];
                for i in 0..*n as usize {
                    let a: Vec<Val> = av.iter().map(|v| match v { Val::Agg(x) => x[i].clone(), o => o.clone() }).collect();
                    out.push(scalar_intrinsic(base, et.bits() as u16, &a).ok_or_else(|| Fault::Unsup(format!("intrinsic {}", name)))?);
                }
                self.ret_to(st, Val::Agg(Rc::new(out)))?;
                return Ok(true);
            }
        }
        let w = ret.bits() as u16;
        let v = match base {
            "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" | "dbg.value" | "dbg.declare" | "prefetch"
            | "invariant.start" | "invariant.end" | "donothing" | "x86.sse2.pause" | "var.annotation" | "sideeffect" => Val::U,
            "assume" => {
                // an assumption that can be false is undefined behaviour
                let c = match &av[0] { Val::I(_, k) => konst(1, (*k & 1) as u128), Val::S(e) => *e, _ => tru() };
                if as_const(c) != Some(1) {
                    if let Some(m) = self.check(st, not(c))? {
                        st.model = Rc::new(Model::new(m));
                        return Err(Fault::Viol("ub-assume".into(), "llvm.assume of a condition that can be false".into()));
                    }
                }
                Val::U
            }
            "expect" | "expect.with.probability" | "launder.invariant.group" | "strip.invariant.group" | "ssa.copy" | "threadlocal.address" => av[0].clone(),
            "is.constant" => Val::I(1, 0),
            "objectsize" => Val::I(w, mask64(w)),
            "memcpy" | "memcpy.inline" => { self.memcpy(st, &av[0], &av[1], &av[2], false)?; Val::U }
            "memmove" => { self.memcpy(st, &av[0], &av[1], &av[2], true)?; Val::U }
            "memset" | "memset.inline" => { self.memset(st, &av[0], &av[1], &av[2])?; Val::U }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let w = args[0].0.bits() as u16;
                if matches!(av[0], Val::U) || matches!(av[1], Val::U) { Val::Agg(Rc::new(vec![Val::U, Val::U])) } else {
                    let (a, b) = (ex(&av[0]), ex(&av[1]));
                    let (r, o) = match base {
                        "uadd.with.overflow" => { let r = add(a, b); (r, ult_add_ovf(a, b, r)) }
                        "usub.with.overflow" => (sub(a, b), ult(a, b)),
                        "umul.with.overflow" => {
                            let r = bin(Op::Mul, a, b);
                            let (na, nb) = (node(a), node(b));
                            let o = if w <= 64 && na.hi.checked_mul(nb.hi).map_or(false, |h| h <= mask64(w)) { fls() }
                            else if w <= 64 {
                                let p = bin(Op::Mul, zext(a, 2 * w), zext(b, 2 * w));
                                not(eq(extract(p, w as u32, w), konst(w, 0)))
                            } else { return Err(Fault::Unsup("umul.with.overflow i128".into())); };
                            (r, o)
                        }
                        "sadd.with.overflow" => {
                            let p = add(sext(a, w + 1), sext(b, w + 1));
                            (add(a, b), not(eq(extract(p, w as u32, 1), extract(p, w as u32 - 1, 1))))
                        }
                        "ssub.with.overflow" => {
                            let p = sub(sext(a, w + 1), sext(b, w + 1));
                            (sub(a, b), not(eq(extract(p, w as u32, 1), extract(p, w as u32 - 1, 1))))
                        }
                        _ => {
                            let p = bin(Op::Mul, sext(a, 2 * w), sext(b, 2 * w));
                            let r = extract(p, 0, w);
                            (r, not(eq(sext(r, 2 * w), p)))
                        }
                    };
                    Val::Agg(Rc::new(vec![norm(r), norm(o)]))
                }
            }
            _ => {
                if base.starts_with("vector.reduce.") {
                    let op = &base["vector.reduce.".len()..];
                    if let Val::Agg(x) = &av[0] {
                        let t = if let Ty::Vec(_, t) = &args[0].0 { (**t).clone() } else { Ty::Int(w) };
                        let mut acc = x[0].clone();
                        for y in x.iter().skip(1) {
                            acc = match op {
                                "or" => binop(Bin::Or, &t, &acc, y)?, "and" => binop(Bin::And, &t, &acc, y)?, "xor" => binop(Bin::Xor, &t, &acc, y)?,
                                "add" => binop(Bin::Add, &t, &acc, y)?, "mul" => binop(Bin::Mul, &t, &acc, y)?,
                                "umax" | "umin" | "smax" | "smin" => scalar_intrinsic(op, w, &[acc, y.clone()]).unwrap(),
                                _ => return Err(Fault::Unsup(format!("intrinsic {}", name))),
                            };
                        }
                        acc
                    } else { Val::U }
                } else {
                    match scalar_intrinsic(base, w, &av) { Some(v) => v, None => {
                        if matches!(base, "trap" | "ubsantrap" | "debugtrap") { return Err(Fault::Viol("trap".into(), "llvm.trap".into())); }
                        return Err(Fault::Unsup(format!("intrinsic {}", name)))
                    } }
                }
            }
        };
        self.ret_to(st, v)?;
        Ok(true)
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for fr in st.frames.iter().rev() {
            let i = fr.f.blocks[fr.blk as usize].ins.get(fr.ip as usize);
            let mut s = fr.f.pretty.clone();
            if let Some(i) = i { if let Some(l) = self.m.dbg_loc(i.dbg) { s = format!("{} ({})", s, l); } }
            v.push(s);
        }
        v
    }
}

fn ult_add_ovf(a: E, b: E, r: E) -> E {
    let (na, nb) = (node(a), node(b));
    if na.w <= 64 && na.hi.checked_add(nb.hi).map_or(false, |h| h <= mask64(na.w)) { return fls(); }
    let _ = b;
    ult(r, a)
}
pub fn ex(v: &Val) -> E {
    match v { Val::I(w, x) => konst(*w, *x as u128), Val::S(e) => *e, _ => panic!("ex of {:?}", v) }
}
pub fn norm(e: E) -> Val {
    match as_const(e) { Some(k) if width(e) <= 64 => Val::I(width(e), k as u64), _ => Val::S(e) }
}
fn fit(v: Val, w: u16) -> Val {
    match v {
        Val::I(ww, x) => if ww == w { v } else { Val::I(w, x & mask64(w)) },
        Val::S(e) => if width(e) > w { norm(extract(e, 0, w)) } else { norm(e) },
        o => o,
    }
}
fn zero(t: &Ty) -> Val {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::Agg(Rc::new((0..t.nfields()).map(|i| {
            match t { Ty::Vec(_, e) => zero(e), Ty::Arr(_, e) => zero(e), _ => zero(&t.field(i).1) }
        }).collect())),
        _ => { let w = t.bits() as u16; if w <= 64 { Val::I(w, 0) } else { Val::S(konst(w, 0)) } }
    }
}
fn insert(ty: &Ty, a: &Val, v: Val, idx: &[u32]) -> Val {
    if idx.is_empty() { return v; }
    let mut x = match a { Val::Agg(x) => (**x).clone(), _ => vec![Val::U; ty.nfields() as usize] };
    let (_, ft) = ty.field(idx[0] as u64);
    let i = idx[0] as usize;
    x[i] = insert(&ft, &x[i].clone(), v, &idx[1..]);
    Val::Agg(Rc::new(x))
}
/// Maximal runs of `v` that are gapless within the candidate list `cand` (both ascending).
fn runs(v: &[u64], cand: &[u64]) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    let mut k = 0;
    let mut prev = usize::MAX - 1;
    for &x in v {
        while cand[k] != x { k += 1; }
        if prev + 1 == k { out.last_mut().unwrap().1 = x; } else { out.push((x, x)); }
        prev = k;
    }
    out
}
/// An expression equal to `e` whenever `e` lies in [lo, hi]; None if it never does.
fn restrict(e: E, lo: u64, hi: u64) -> Option<E> {
    let n = *node(e);
    if n.hi < lo || n.lo > hi { return None; }
    match n.op {
        Op::Ite => match (restrict(n.b, lo, hi), restrict(n.c, lo, hi)) {
            (Some(b), Some(c)) => Some(if b == n.b && c == n.c { e } else { ite(n.a, b, c) }),
            (Some(b), None) => Some(b),
            (None, Some(c)) => Some(c),
            (None, None) => None,
        },
        Op::Add => {
            let mut r = e;
            for (x, y, first) in [(n.a, n.b, true), (n.b, n.a, false)] {
                let (nx, ny) = (*node(x), *node(y));
                if nx.op != Op::Ite && nx.op != Op::Add || ny.hi > 1 << 40 || hi > 1 << 60 { continue; }
                // x = e - y without wrap-around as long as both are small
                let (l, h) = (lo.saturating_sub(ny.hi), hi - ny.lo.min(hi));
                // leaves above 2^60 could wrap: keep them
                if nx.hi > 1 << 60 { continue; }
                match restrict(x, l, h) {
                    None => return None,
                    Some(x2) => if x2 != x { r = if first { add(x2, y) } else { add(y, x2) }; break; }
                }
            }
            Some(r)
        }
        _ => Some(e),
    }
}
fn in_run(off: E, a: u64, b: u64) -> E {
    if a == b { return eq(off, konst(64, a as u128)); }
    let lo = if a == 0 { tru() } else { ule(konst(64, a as u128), off) };
    let hi = ule(off, konst(64, b as u128));
    and(lo, hi)
}
/// concat(ite(c,a,b), ite(c,d,e)) = ite(c, concat(a,d), concat(b,e))
fn lift_ite(e: E) -> E {
    let n = *node(e);
    if n.op != Op::Concat { return e; }
    let h = lift_ite(n.a);
    let l = lift_ite(n.b);
    let (nh, nl) = (*node(h), *node(l));
    if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
        let x = lift_ite(concat(nh.b, nl.b));
        let y = lift_ite(concat(nh.c, nl.c));
        return ite(nh.a, x, y);
    }
    if h == n.a && l == n.b { e } else { concat(h, l) }
}

fn icmp(p: Pred, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::I(w, x), Val::I(_, y)) => {
            let (sx, sy) = (sext128(*x as u128, *w), sext128(*y as u128, *w));
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                Pred::Slt => sx < sy, Pred::Sle => sx <= sy, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy,
            };
            Val::I(1, r as u64)
        }
        (Val::U, _) | (_, Val::U) | (Val::Agg(_), _) | (_, Val::Agg(_)) => Val::U,
        _ => {
            let (x, y) = (ex(a), ex(b));
            norm(match p {
                Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ult => ult(x, y), Pred::Ule => ule(x, y), Pred::Ugt => ult(y, x), Pred::Uge => ule(y, x),
                Pred::Slt => slt(x, y), Pred::Sle => not(slt(y, x)), Pred::Sgt => slt(y, x), Pred::Sge => not(slt(x, y)),
            })
        }
    }
}
fn binop(op: Bin, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
    if let Ty::Vec(_, t) = ty {
        return match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) { v.push(binop(op, t, p, q)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => Ok(Val::U),
        };
    }
    let eop = match op {
        Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem,
        Bin::SRem => Op::SRem, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr,
    };
    match (a, b) {
        (Val::I(w, x), Val::I(_, y)) => {
            let m = mask64(*w);
            Ok(Val::I(*w, match op {
                Bin::Add => x.wrapping_add(*y) & m, Bin::Sub => x.wrapping_sub(*y) & m, Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Mul => x.wrapping_mul(*y) & m,
                _ => fold(eop, *w, *w, *x as u128, *y as u128, 0, 0) as u64,
            }))
        }
        (Val::I(w, 0), Val::U) | (Val::U, Val::I(w, 0)) if op == Bin::And => Ok(Val::I(*w, 0)),
        (Val::U, _) | (_, Val::U) => Ok(Val::U),
        (Val::Agg(_), _) | (_, Val::Agg(_)) => Err(Fault::Unsup("binop on aggregate".into())),
        _ => Ok(norm(bin(eop, ex(a), ex(b)))),
    }
}
fn to_bits(v: &Val, ew: u16) -> Val {
    match v {
        Val::Agg(x) => {
            if x.iter().any(|l| matches!(l, Val::U | Val::Agg(_))) { return Val::U; }
            let mut acc: Option<E> = None;
            for l in x.iter() { let e = ex(l); let _ = ew; acc = Some(match acc { None => e, Some(a) => concat(e, a) }); }
            norm(acc.unwrap())
        }
        o => o.clone(),
    }
}
fn from_bits(v: &Val, n: u32, ew: u16, _tw: u16) -> Val {
    match v {
        Val::U => Val::Agg(Rc::new(vec![Val::U; n as usize])),
        Val::Agg(_) => v.clone(),
        _ => { let e = ex(v); Val::Agg(Rc::new((0..n).map(|i| norm(extract(e, i * ew as u32, ew))).collect())) }
    }
}
fn cast(op: Cast, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
    if op == Cast::Bit {
        if from.bits() > 128 {
            // lane-wise re-slicing
            if let (Ty::Vec(n1, t1), Ty::Vec(n2, t2)) = (from, to) {
                if let Val::Agg(x) = a {
                    let (w1, w2) = (t1.bits() as u16, t2.bits() as u16);
                    if w1 == w2 { return Ok(a.clone()); }
                    let mut out = vec![];
                    if w1 < w2 {
                        let k = (w2 / w1) as usize;
                        for c in x.chunks(k) { out.push(to_bits(&Val::Agg(Rc::new(c.to_vec())), w1)); }
                    } else {
                        let k = (w1 / w2) as u32;
                        for l in x.iter() { if let Val::Agg(y) = from_bits(l, k, w2, w1) { out.extend(y.iter().cloned()); } }
                    }
                    let _ = (n1, n2);
                    return Ok(Val::Agg(Rc::new(out)));
                }
                return Ok(Val::U);
            }
            return Err(Fault::Unsup("wide bitcast".into()));
        }
        let bits = match from { Ty::Vec(_, t) => to_bits(a, t.bits() as u16), _ => a.clone() };
        return Ok(match to { Ty::Vec(n, t) => from_bits(&bits, *n, t.bits() as u16, to.bits() as u16), _ => bits });
    }
    if let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) {
        return match a {
            Val::Agg(x) => { let mut v = vec![]; for l in x.iter() { v.push(cast(op, f, t, l)?); } Ok(Val::Agg(Rc::new(v))) }
            _ => Ok(Val::U),
        };
    }
    let w = to.bits() as u16;
    Ok(match a {
        Val::U => Val::U,
        Val::Agg(_) => return Err(Fault::Unsup("cast of aggregate".into())),
        Val::I(fw, x) if w <= 64 => Val::I(w, match op { Cast::SExt => sext128(*x as u128, *fw) as u64 & mask64(w), _ => x & mask64(w) }),
        _ => {
            let e = ex(a);
            let fw = width(e);
            norm(match op {
                Cast::SExt => sext(e, w),
                _ => if w > fw { zext(e, w) } else { extract(e, 0, w) },
            })
        }
    })
}
fn scalar_intrinsic(base: &str, w: u16, av: &[Val]) -> Option<Val> {
    if av.iter().any(|v| matches!(v, Val::U)) { return Some(Val::U); }
    let e: Vec<E> = av.iter().map(|v| match v { Val::Agg(_) => fls(), v => ex(v) }).collect();
    if av.iter().any(|v| matches!(v, Val::Agg(_))) { return None; }
    let r = match base {
        "ctpop" => popcnt(e[0]),
        "cttz" => ctz(e[0]),
        "ctlz" => {
            // smear then count
            let mut x = e[0];
            let mut s = 1u16;
            while s < w { x = or(x, bin(Op::LShr, x, konst(w, s as u128))); s *= 2; }
            popcnt(not(x))
        }
        "umin" => ite(ult(e[0], e[1]), e[0], e[1]),
        "umax" => ite(ult(e[0], e[1]), e[1], e[0]),
        "smin" => ite(slt(e[0], e[1]), e[0], e[1]),
        "smax" => ite(slt(e[0], e[1]), e[1], e[0]),
        "abs" => ite(slt(e[0], konst(w, 0)), sub(konst(w, 0), e[0]), e[0]),
        "usub.sat" => ite(ult(e[0], e[1]), konst(w, 0), sub(e[0], e[1])),
        "uadd.sat" => { let r = add(e[0], e[1]); ite(ult_add_ovf(e[0], e[1], r), konst(w, mask(w)), r) }
        "ucmp" => ite(ult(e[0], e[1]), konst(w, mask(w)), ite(eq(e[0], e[1]), konst(w, 0), konst(w, 1))),
        "scmp" => ite(slt(e[0], e[1]), konst(w, mask(w)), ite(eq(e[0], e[1]), konst(w, 0), konst(w, 1))),
        "fshl" | "fshr" => {
            let k = if w.is_power_of_two() { and(e[2], konst(w, w as u128 - 1)) } else { bin(Op::URem, e[2], konst(w, w as u128)) };
            let left = base == "fshl";
            if let Some(s) = as_const(k) {
                let s = s as u16;
                if s == 0 { if left { e[0] } else { e[1] } } else {
                    let sh = if left { s } else { w - s };
                    or(bin(Op::Shl, e[0], konst(w, sh as u128)), bin(Op::LShr, e[1], konst(w, (w - sh) as u128)))
                }
            } else if as_const(e[0]) == Some(mask(w) - 1) && e[0] == e[1] && left {
                not(bin(Op::Shl, konst(w, 1), k)) // rotate_left(!1, k)
            } else if as_const(e[0]) == Some(1) && e[0] == e[1] && left {
                bin(Op::Shl, konst(w, 1), k)
            } else {
                let inv = sub(konst(w, w as u128), k);
                if left {
                    ite(eq(k, konst(w, 0)), e[0], or(bin(Op::Shl, e[0], k), bin(Op::LShr, e[1], inv)))
                } else {
                    ite(eq(k, konst(w, 0)), e[1], or(bin(Op::Shl, e[0], inv), bin(Op::LShr, e[1], k)))
                }
            }
        }
        "bswap" => { let mut acc = extract(e[0], 0, 8); for i in 1..w as u32 / 8 { acc = concat(acc, extract(e[0], i * 8, 8)); } acc }
        "bitreverse" => { let mut acc = extract(e[0], 0, 1); for i in 1..w as u32 { acc = concat(acc, extract(e[0], i, 1)); } acc }
        "x86.bmi.bzhi" | "x86.bmi.bzhi.64" | "x86.bmi.bzhi.32" => {
            let n = and(e[1], konst(w, 0xff));
            let m = bin(Op::Sub, bin(Op::Shl, konst(w, 1), n), konst(w, 1));
            // shl by >= w gives 0, 0 - 1 = all ones, as bzhi
            and(e[0], m)
        }
        _ => return None,
    };
    Some(norm(r))
}

fn envn(k: &str, d: usize) -> usize { std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d) }

/// Rewrite with the facts of the path.
fn simp(st: &State, e: E) -> E {
    if st.known.is_empty() || as_const(e).is_some() { return e; }
    subst(e, &st.known, &mut st.memo.borrow_mut())
}
/// Record a path fact for `simp`.
fn learn(st: &mut State, c: E) {
    let mut k = (*st.known).clone();
    let mut subs = false;
    learn_in(&mut k, c, true, &mut subs);
    if subs {
        // canonicalise the earlier facts under the new equalities
        for _ in 0..2 {
            let mut memo = Default::default();
            let mut s2 = false;
            for p in st.pc.clone() {
                // a fact must not rewrite itself away
                let q = subst(p, &k.iter().filter(|x| width(*x.0) > 1).map(|x| (*x.0, *x.1)).collect(), &mut memo);
                if as_const(q).is_none() { learn_in(&mut k, q, true, &mut s2); }
            }
            if !s2 { break; }
        }
        // compress chains
        for _ in 0..4 {
            let ch: Vec<(E, E)> = k.iter().filter_map(|(x, y)| k.get(y).map(|z| (*x, *z))).filter(|(x, z)| x != z).collect();
            if ch.is_empty() { break; }
            for (x, z) in ch { k.insert(x, z); }
        }
    }
    st.known = Rc::new(k);
    st.memo = Default::default();
}
fn learn_in(k: &mut FxMap<E, E>, c: E, v: bool, subs: &mut bool) {
    let n = *node(c);
    if n.op == Op::Const { return; }
    if n.op == Op::Xor && as_const(n.b) == Some(1) { return learn_in(k, n.a, !v, subs); }
    let kv = konst(1, v as u128);
    if k.insert(c, kv) == Some(kv) { return; }
    let is = |k: &FxMap<E, E>, e: E| k.get(&e).and_then(|x| as_const(*x));
    match n.op {
        Op::And if v => { learn_in(k, n.a, true, subs); learn_in(k, n.b, true, subs); }
        Op::Or if !v => { learn_in(k, n.a, false, subs); learn_in(k, n.b, false, subs); }
        Op::Eq => {
            if v {
                // larger id -> smaller id: never a subterm of its own replacement
                let (x, y) = if node(n.b).op == Op::Const { (n.a, n.b) } else if n.a > n.b { (n.a, n.b) } else { (n.b, n.a) };
                if k.get(&x) != Some(&y) { k.insert(x, y); *subs = true; }
                learn_in(k, ult(n.a, n.b), false, subs);
                learn_in(k, ult(n.b, n.a), false, subs);
            } else {
                let (p, q) = (ult(n.a, n.b), ult(n.b, n.a));
                if is(k, p) == Some(0) { learn_in(k, q, true, subs); }
                if is(k, q) == Some(0) { learn_in(k, p, true, subs); }
            }
        }
        Op::Ult => {
            let (o, q) = (ult(n.b, n.a), eq(n.a, n.b));
            if v { learn_in(k, o, false, subs); learn_in(k, q, false, subs); }
            else if is(k, q) == Some(0) { learn_in(k, o, true, subs); }
            else if is(k, o) == Some(0) { learn_in(k, q, true, subs); }
        }
        _ => {}
    }
}
/// The condition of a choice among constants that `e` contains as a summand or factor.
fn const_choice(e: E, depth: u32) -> Option<E> {
    if depth == 0 { return None; }
    let n = *node(e);
    match n.op {
        Op::Ite => { if const_leaves(e, 16) { atom(e, 12) } else { const_choice(n.b, depth - 1).or_else(|| const_choice(n.c, depth - 1)) } }
        Op::ZExt | Op::SExt | Op::Extract => const_choice(n.a, depth - 1),
        Op::Add | Op::Sub | Op::Shl | Op::Mul | Op::Concat => const_choice(n.a, depth - 1).or_else(|| const_choice(n.b, depth - 1)),
        _ => None,
    }
}
fn const_leaves(e: E, depth: u32) -> bool {
    if depth == 0 { return false; }
    let n = *node(e);
    match n.op { Op::Const => true, Op::Ite => const_leaves(n.b, depth - 1) && const_leaves(n.c, depth - 1), _ => false }
}
/// A condition the value of `e` depends on, if `e` is built from conditions.
fn atom(e: E, depth: u32) -> Option<E> {
    if depth == 0 { return None; }
    let n = *node(e);
    if n.w == 1 {
        return match n.op {
            Op::Const => None,
            Op::And | Op::Or | Op::Xor => atom(n.a, depth - 1).or_else(|| atom(n.b, depth - 1)),
            Op::Ite => atom(n.a, depth - 1),
            _ => Some(e),
        };
    }
    match n.op {
        Op::Ite => atom(n.a, depth - 1),
        Op::ZExt | Op::SExt | Op::Extract => atom(n.a, depth - 1),
        Op::Add | Op::Sub | Op::Shl | Op::LShr | Op::And | Op::Or | Op::Mul | Op::Concat => atom(n.a, depth - 1).or_else(|| atom(n.b, depth - 1)),
        _ => None,
    }
}

/// Is a comparison decided by the order facts of the path (transitive closure)?
fn implied(st: &State, c: E) -> Option<bool> {
    let n = *node(c);
    if n.op == Op::Xor && as_const(n.b) == Some(1) { return implied(st, n.a).map(|x| !x); }
    if !matches!(n.op, Op::Ult | Op::Eq) { return None; }
    let w = width(n.a);
    if w == 1 || w > 64 { return None; }
    // edges x <= y (strict or not)
    let mut ed: Vec<(E, E, bool)> = vec![];
    let mut consts: Vec<E> = vec![];
    for (&f, &v) in st.known.iter() {
        let m = *node(f);
        if m.op != Op::Ult || width(m.a) != w { continue; }
        let t = match as_const(v) { Some(x) => x != 0, None => continue };
        if t { ed.push((m.a, m.b, true)); } else { ed.push((m.b, m.a, false)); }
        for x in [m.a, m.b] { if as_const(x).is_some() { consts.push(x); } }
    }
    if ed.is_empty() { return None; }
    for x in [n.a, n.b] { if as_const(x).is_some() { consts.push(x); } }
    consts.sort_by_key(|x| as_const(*x));
    consts.dedup();
    for p in consts.windows(2) { ed.push((p[0], p[1], true)); }
    // strongest relation from a to every reachable term: 1 = <=, 2 = <
    let reach = |a: E, b: E| -> u8 {
        let mut best: FxMap<E, u8> = Default::default();
        best.insert(a, 1);
        let mut q = vec![a];
        while let Some(x) = q.pop() {
            let bx = best[&x];
            for &(p, r, s) in &ed {
                if p != x { continue; }
                let nb = if s { 2 } else { bx };
                let o = best.get(&r).copied().unwrap_or(0);
                if nb > o { best.insert(r, nb); q.push(r); }
            }
        }
        best.get(&b).copied().unwrap_or(0)
    };
    let (f, g) = (reach(n.a, n.b), reach(n.b, n.a));
    if n.op == Op::Ult {
        if f == 2 { return Some(true); }
        if g >= 1 { return Some(false); }
        if f == 1 && st.known.get(&eq(n.a, n.b)).and_then(|x| as_const(*x)) == Some(0) { return Some(true); }
    } else {
        if f == 2 || g == 2 { return Some(false); }
        if f == 1 && g == 1 { return Some(true); }
    }
    None
}

//! Parser for the textual LLVM IR rustc emits (opaque pointers).
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>),
    Struct(bool, Rc<Vec<Ty>>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(p, ts) => if *p { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; round(b, self.align()) }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(p, ts) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !*p { o = round(o, t.align()); }
                    o += t.size();
                }
                round(o, self.align())
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self { Ty::Int(w) => (*w as u64 + 7) / 8, _ => self.size() }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            Ty::Vec(n, t) => *n as u64 * t.bits(),
            _ => self.size() * 8,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(p, ts) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !*p { o = round(o, t.align()); }
                    if k as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Struct(_, t) => t.len() as u64,
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n as u64,
            _ => 0,
        }
    }
}
pub fn round(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

/// Constant or operand
#[derive(Clone, Debug)]
pub enum Opd {
    Local(u32),
    Int(u16, u128),
    Undef,
    Agg(Rc<Vec<Opd>>),
    Zero(Ty),
    Meta,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { ZExt, SExt, Trunc, Bit, PtrInt }

#[derive(Clone, Debug)]
pub enum Callee { Direct(Rc<str>), Indirect(Opd) }

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca { ty: Ty, n: Opd, align: u64 },
    Load { ty: Ty, p: Opd, align: u64 },
    Store { ty: Ty, v: Opd, p: Opd, align: u64 },
    /// base + const + sum(idx * scale)
    Gep { p: Opd, off: i64, terms: Vec<(Opd, u16, i64)> },
    Bin { op: Bin, ty: Ty, a: Opd, b: Opd },
    Icmp { pred: Pred, ty: Ty, a: Opd, b: Opd },
    Cast { op: Cast, from: Ty, to: Ty, a: Opd },
    Select { c: Opd, cty: Ty, ty: Ty, a: Opd, b: Opd },
    Phi { ty: Ty, inc: Vec<(Opd, u32)> },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u16, v: Opd, d: u32, cases: Vec<(u128, u32)> },
    Call { ret: Ty, f: Callee, args: Vec<(Ty, Opd)>, inv: Option<(u32, u32)> },
    Extract { ty: Ty, a: Opd, idx: Vec<u32> },
    Insert { ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElt { a: Opd, i: Opd },
    InsertElt { n: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { n: u32, a: Opd, b: Opd, mask: Vec<Option<u32>> },
    LandingPad { cleanup: bool },
    Resume { v: Opd },
    Freeze { ty: Ty, a: Opd },
    Ret { v: Option<Opd> },
    Unreachable,
    Nop,
    AtomicRmw { op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd },
    Bad(String),
}

#[derive(Debug)]
pub struct Inst { pub dst: u32, pub dbg: u32, pub ins: Ins }
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block { pub ins: Vec<Inst>, pub nphi: usize }
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub pretty: String,
    pub params: Vec<u32>,
    pub nlocals: u32,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef { pub name: Rc<str>, pub addr: u64, pub size: u64, pub align: u64, pub constant: bool, pub ty: Ty, pub init: (usize, usize) }
pub struct FuncDef { pub name: Rc<str>, pub addr: u64, pub line: usize, pub body: bool }

pub struct Module {
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub globals: Vec<GlobalDef>,
    pub gmap: FxMap<Rc<str>, usize>,
    pub funcs: Vec<FuncDef>,
    pub fmap: FxMap<Rc<str>, usize>,
    pub types: HashMap<String, Ty>,
    pub cache: std::cell::RefCell<FxMap<usize, Rc<Func>>>,
    pub meta: FxMap<u32, usize>, // metadata id -> line index
    pub aliases: HashMap<Rc<str>, (usize, usize)>,
}

pub struct P<'a> { s: &'a [u8], i: usize, m: &'a Module }
type R<T> = Result<T, String>;

fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(c.as_bytes()) { self.i += c.len(); true } else { false }
    }
    fn expect(&mut self, c: &str) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected {:?} at {:?}", c, String::from_utf8_lossy(&self.s[self.i..(self.i + 60).min(self.s.len())]))) }
    }
    fn word_at(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && idc(self.s[j]) { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap_or("")
    }
    fn word(&mut self) -> &'a str { let w = self.word_at(); self.i += w.len(); w }
    fn eatw(&mut self, w: &str) -> bool { if self.word_at() == w { self.i += w.len(); true } else { false } }
    fn name(&mut self) -> R<String> {
        // after sigil
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let j = self.s[self.i + 1..].iter().position(|&c| c == b'"').ok_or("unterminated")? + self.i + 1;
            let r = String::from_utf8_lossy(&self.s[self.i + 1..j]).into_owned();
            self.i = j + 1;
            Ok(r)
        } else {
            let mut j = self.i;
            while j < self.s.len() && idc(self.s[j]) { j += 1; }
            let r = String::from_utf8_lossy(&self.s[self.i..j]).into_owned();
            self.i = j;
            Ok(r)
        }
    }
    fn int(&mut self) -> R<i128> {
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("int {:?}", w))
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.i < self.s.len() && self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let mut t = match c {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat("}") {
                    loop { v.push(self.ty()?); if self.eat("}") { break; } self.expect(",")?; }
                }
                Ty::Struct(false, Rc::new(v))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    if !self.eat("}") {
                        loop { v.push(self.ty()?); if self.eat("}") { break; } self.expect(",")?; }
                    }
                    self.expect(">")?;
                    Ty::Struct(true, Rc::new(v))
                } else {
                    let n = self.int()? as u32;
                    self.expect("x")?;
                    let t = self.ty()?;
                    self.expect(">")?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.int()? as u64;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ty::Arr(n, Rc::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                self.m.types.get(&n).cloned().ok_or(format!("type %{}", n))?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if self.eatw("addrspace") { self.skip_paren(); } Ty::Ptr }
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "label" | "metadata" | "token" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    _ => return Err(format!("type {:?} at {:?}", w, String::from_utf8_lossy(&self.s[self.i..(self.i + 40).min(self.s.len())]))),
                }
            }
        };
        // function type
        if self.peek() == b'(' {
            self.skip_paren();
            t = Ty::Other;
        }
        Ok(t)
    }
    fn global_addr(&self, n: &str) -> R<u64> {
        if let Some(&g) = self.m.gmap.get(n) { return Ok(self.m.globals[g].addr); }
        if let Some(&f) = self.m.fmap.get(n) { return Ok(self.m.funcs[f].addr); }
        if let Some(&(a, b)) = self.m.aliases.get(n) {
            let mut p = P { s: &self.m.text.as_bytes()[a..b], i: 0, m: self.m };
            p.ty()?; p.expect(",")?;
            p.ty()?;
            let o = p.cnst(&Ty::Ptr)?;
            if let Opd::Int(_, v) = o { return Ok(v as u64); }
        }
        Err(format!("global @{}", n))
    }
    /// constant of type `ty` (no locals)
    pub fn cnst(&mut self, ty: &Ty) -> R<Opd> {
        self.val(ty, None)
    }
    fn val(&mut self, ty: &Ty, loc: Option<&FxMap<String, u32>>) -> R<Opd> {
        let c = self.peek();
        match c {
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                let l = loc.ok_or("local in constant")?;
                return Ok(Opd::Local(*l.get(&n).ok_or_else(|| format!("local %{}", n))?));
            }
            b'@' => {
                self.i += 1;
                let n = self.name()?;
                return Ok(Opd::Int(64, self.global_addr(&n)? as u128));
            }
            b'{' | b'[' | b'<' => {
                if *ty == Ty::Other { return Err("agg of other".into()); }
                let mut close = vec![];
                self.i += 1;
                let mut packed = false;
                if c == b'<' && self.peek() == b'{' { self.i += 1; packed = true; }
                close.push(match c { b'{' => "}", b'[' => "]", _ => ">" });
                let cl = if packed { "}" } else { close[0] };
                let mut v = vec![];
                if !self.eat(cl) {
                    loop {
                        let t = self.ty()?;
                        v.push(self.val(&t, loc)?);
                        if self.eat(cl) { break; }
                        self.expect(",")?;
                    }
                }
                if packed { self.expect(">")?; }
                return Ok(Opd::Agg(Rc::new(v)));
            }
            b'!' => {
                // metadata operand
                while self.i < self.s.len() && self.s[self.i] != b',' && self.s[self.i] != b')' {
                    if self.s[self.i] == b'(' { self.skip_paren(); } else { self.i += 1; }
                }
                return Ok(Opd::Meta);
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    let ch = if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        self.i += 3;
                        u8::from_str_radix(h, 16).map_err(|e| e.to_string())?
                    } else { self.i += 1; self.s[self.i - 1] };
                    v.push(Opd::Int(8, ch as u128));
                }
                self.i += 1;
                return Ok(Opd::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let w = self.word();
        let iw = match ty { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::Float(w) => *w, _ => 0 };
        match w {
            "true" => Ok(Opd::Int(1, 1)),
            "false" => Ok(Opd::Int(1, 0)),
            "null" => Ok(Opd::Int(64, 0)),
            "undef" | "poison" => Ok(Opd::Undef),
            "zeroinitializer" => Ok(Opd::Zero(ty.clone())),
            "none" => Ok(Opd::Meta),
            "splat" => {
                self.expect("(")?;
                let t = self.ty()?;
                let v = self.val(&t, loc)?;
                self.expect(")")?;
                let n = ty.nfields() as usize;
                Ok(Opd::Agg(Rc::new(vec![v; n])))
            }
            "getelementptr" => {
                let g = self.gep_body(loc, true)?;
                if let Ins::Gep { p: Opd::Int(_, b), off, terms } = g {
                    let mut a = (b as u64).wrapping_add(off as u64);
                    for (o, w, s) in terms {
                        if let Opd::Int(_, v) = o {
                            let v = crate::expr::sext128(v, w) as i64;
                            a = a.wrapping_add(v.wrapping_mul(s) as u64);
                        } else { return Err("gep const".into()); }
                    }
                    Ok(Opd::Int(64, a as u128))
                } else { Err("gep const".into()) }
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.expect("(")?;
                let t = self.ty()?;
                let v = self.val(&t, loc)?;
                if !self.eatw("to") { return Err("to".into()); }
                let t2 = self.ty()?;
                self.expect(")")?;
                if let Opd::Int(_, x) = v {
                    let w2 = t2.bits() as u16;
                    Ok(Opd::Int(w2, x & crate::expr::mask(w2)))
                } else { Ok(v) }
            }
            "add" | "sub" | "xor" | "mul" | "shl" => {
                while matches!(self.word_at(), "nuw" | "nsw") { self.word(); }
                self.expect("(")?;
                let t = self.ty()?;
                let a = self.val(&t, loc)?;
                self.expect(",")?;
                let t = self.ty()?;
                let b = self.val(&t, loc)?;
                self.expect(")")?;
                if let (Opd::Int(wd, x), Opd::Int(_, y)) = (a, b) {
                    let r = match w { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "xor" => x ^ y, "mul" => x.wrapping_mul(y), _ => x << y };
                    Ok(Opd::Int(wd, r & crate::expr::mask(wd)))
                } else { Err("const binop".into()) }
            }
            _ if !w.is_empty() && (w.as_bytes()[0].is_ascii_digit() || w.as_bytes()[0] == b'-') => {
                if matches!(ty, Ty::Float(_)) {
                    // decimal or hex float
                    while self.i < self.s.len() && (idc(self.s[self.i]) || self.s[self.i] == b'+') { self.i += 1; }
                    if let Some(h) = w.strip_prefix("0x") { return Ok(Opd::Int(iw, u128::from_str_radix(h, 16).map_err(|e| e.to_string())?)); }
                    return Err("float".into());
                }
                if let Ok(v) = w.parse::<i128>() { return Ok(Opd::Int(iw, v as u128 & crate::expr::mask(iw))); }
                if let Ok(v) = w.parse::<u128>() { return Ok(Opd::Int(iw, v & crate::expr::mask(iw))); }
                Err(format!("int const {} width {}", w, iw))
            }
            _ => Err(format!("value {:?} of {:?}", w, ty)),
        }
    }
    fn gep_body(&mut self, loc: Option<&FxMap<String, u32>>, paren: bool) -> R<Ins> {
        loop {
            let w = self.word_at();
            if matches!(w, "inbounds" | "nuw" | "nusw") { self.word(); }
            else if w == "inrange" { self.word(); self.skip_paren(); }
            else { break; }
        }
        if paren { self.expect("(")?; }
        let ty = self.ty()?;
        self.expect(",")?;
        let pt = self.ty()?;
        if pt != Ty::Ptr { return Err("vector gep".into()); }
        let p = self.val(&pt, loc)?;
        let mut off = 0i64;
        let mut terms = vec![];
        let mut cur = Ty::Arr(u64::MAX, Rc::new(ty)); // first index scales by the type
        let mut first = true;
        loop {
            if paren { if self.eat(")") { break; } }
            let save = self.i;
            if !self.eat(",") { break; }
            if !paren && self.peek() == b'!' { self.i = save; break; }
            let it = self.ty()?;
            let v = self.val(&it, loc)?;
            let w = it.bits() as u16;
            let (scale, next) = match &cur {
                Ty::Arr(_, t) => (t.size() as i64, Some((**t).clone())),
                Ty::Vec(_, t) => (t.size() as i64, Some((**t).clone())),
                Ty::Struct(..) => {
                    if let Opd::Int(_, k) = v {
                        let (o, t) = cur.field(k as u64);
                        off += o as i64;
                        cur = t;
                        continue;
                    }
                    return Err("struct gep idx".into());
                }
                _ => return Err("gep into scalar".into()),
            };
            match v {
                Opd::Int(_, k) => off = off.wrapping_add((crate::expr::sext128(k, w) as i64).wrapping_mul(scale)),
                Opd::Undef => terms.push((Opd::Undef, w, scale)),
                o => terms.push((o, w, scale)),
            }
            cur = next.unwrap();
            if first { first = false; }
        }
        Ok(Ins::Gep { p, off, terms })
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attribute
                self.i += 1;
                while self.s[self.i] != b'"' { self.i += 1; }
                self.i += 1;
                if self.peek() == b'=' { self.i += 1; if self.peek() == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; } }
                continue;
            }
            let w = self.word_at();
            match w {
                "align" => { self.word(); if self.peek() == b'(' { self.skip_paren(); } else { self.word(); } }
                "noundef" | "nonnull" | "noalias" | "nofree" | "nest" | "returned" | "signext" | "zeroext" | "inreg"
                | "readonly" | "readnone" | "writeonly" | "writable" | "immarg" | "nocapture" | "swiftself" | "allocptr" | "allocalign"
                | "dead_on_unwind" | "dead_on_return" | "noext" | "noreturn" | "nounwind" => { self.word(); if self.peek() == b'(' { self.skip_paren(); } }
                "captures" | "dereferenceable" | "dereferenceable_or_null" | "range" | "sret" | "byval" | "initializes" | "nofpclass"
                | "elementtype" | "inalloca" | "byref" | "preallocated" | "memory" => { self.word(); self.ws(); if self.peek() == b'(' { self.skip_paren(); } }
                _ => return,
            }
        }
    }
}

fn find_assign(s: &str) -> Option<(String, usize)> {
    // "%x = ..." -> name, offset after '='
    let b = s.as_bytes();
    if b.first() != Some(&b'%') { return None; }
    let (nm, e) = if b.get(1) == Some(&b'"') {
        let j = s[2..].find('"')? + 2;
        (s[2..j].to_string(), j + 1)
    } else {
        let mut j = 1;
        while j < b.len() && idc(b[j]) { j += 1; }
        (s[1..j].to_string(), j)
    };
    let rest = &s[e..];
    if rest.starts_with(" = ") { Some((nm, e + 3)) } else { None }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let mut lines = vec![];
        let mut st = 0;
        for (i, c) in text.bytes().enumerate() { if c == b'\n' { lines.push((st, i)); st = i + 1; } }
        if st < text.len() { lines.push((st, text.len())); }
        let mut m = Module {
            text, lines, globals: vec![], gmap: Default::default(), funcs: vec![], fmap: Default::default(),
            types: HashMap::new(), cache: Default::default(), meta: Default::default(), aliases: HashMap::new(),
        };
        // pass 1: named types (in order; rustc emits few), function names
        let mut gl = vec![];
        let mut faddr = 0x1000u64;
        for li in 0..m.lines.len() {
            let (a, b) = m.lines[li];
            let l = m.text[a..b].to_string();
            let l = l.as_str();
            match l.as_bytes().first() {
                Some(b'%') => {
                    if let Some(k) = l.find(" = type ") {
                        let nm = l[1..k].trim_matches('"').to_string();
                        let body = l[k + 8..].to_string();
                        let t = { let mut p = P { s: body.as_bytes(), i: 0, m: &m }; p.ty() };
                        if let Ok(t) = t { m.types.insert(nm, t); }
                    }
                }
                Some(b'@') => gl.push(li),
                Some(b'd') if l.starts_with("define ") || l.starts_with("declare ") => {
                    if let Some(at) = l.find('@') {
                        let mut p = P { s: l.as_bytes(), i: at + 1, m: &m };
                        let n: Rc<str> = p.name()?.into();
                        let body = l.starts_with("define");
                        m.fmap.insert(n.clone(), m.funcs.len());
                        m.funcs.push(FuncDef { name: n, addr: faddr, line: li, body });
                        faddr += 16;
                    }
                }
                Some(b'!') => {
                    let e = l.find(' ').unwrap_or(l.len());
                    if let Ok(n) = l[1..e].parse::<u32>() { m.meta.insert(n, li); }
                }
                _ => {}
            }
        }
        // pass 2: globals
        let mut addr = 0x10_0000_0000u64;
        for li in gl {
            let (a, b) = m.lines[li];
            let l = m.text[a..b].to_string();
            let mut p = P { s: l.as_bytes(), i: 1, m: &m };
            let n: Rc<str> = p.name()?.into();
            p.expect("=")?;
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.word_at() {
                    "constant" => { p.word(); constant = true; break; }
                    "global" => { p.word(); break; }
                    "alias" => { p.word(); alias = true; break; }
                    "external" | "extern_weak" => { external = true; p.word(); }
                    "" => { let i = p.i; if p.peek() == b'(' { p.skip_paren(); } else { return Err(format!("global {} @{}", l.chars().take(80).collect::<String>(), i)); } }
                    _ => { p.word(); }
                }
            }
            if alias {
                let off = a + p.i;
                m.aliases.insert(n, (off, b));
                continue;
            }
            let ty = p.ty()?;
            p.ws();
            let ioff = if external { 0 } else { a + p.i };
            let mut al = ty.align().max(1);
            if let Some(k) = l.rfind(", align ") {
                let t: String = l[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(x) = t.parse::<u64>() { al = x; }
            }
            let size = ty.size();
            addr = round(addr + 64, al.max(16));
            let g = GlobalDef { name: n.clone(), addr, size, align: al, constant, ty, init: (ioff, b) };
            addr += size;
            m.gmap.insert(n, m.globals.len());
            m.globals.push(g);
        }
        Ok(m)
    }
    pub fn line(&self, i: usize) -> &str { let (a, b) = self.lines[i]; &self.text[a..b] }

    pub fn global_init(&self, g: &GlobalDef) -> R<Option<Opd>> {
        if g.init.0 == 0 { return Ok(None); }
        let mut p = P { s: &self.text.as_bytes()[g.init.0..g.init.1], i: 0, m: self };
        Ok(Some(p.cnst(&g.ty)?))
    }

    pub fn func(&self, idx: usize) -> R<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(&idx) { return Ok(f.clone()); }
        let f = Rc::new(self.parse_func(idx)?);
        self.cache.borrow_mut().insert(idx, f.clone());
        Ok(f)
    }

    fn parse_func(&self, idx: usize) -> R<Func> {
        let fd = &self.funcs[idx];
        let hl = self.line(fd.line);
        // pretty name from the comment above
        let mut pretty = fd.name.to_string();
        let mut k = fd.line;
        while k > 0 {
            k -= 1;
            let l = self.line(k);
            if l.starts_with("; Function Attrs") { continue; }
            if let Some(t) = l.strip_prefix("; ") { pretty = t.to_string(); }
            break;
        }
        let mut loc: FxMap<String, u32> = Default::default();
        let mut nloc = 0u32;
        let mut unnamed = 0u32;
        let mut params = vec![];
        {
            let at = hl.find('@').unwrap();
            let mut p = P { s: hl.as_bytes(), i: at + 1, m: self };
            p.name()?;
            p.expect("(")?;
            if !p.eat(")") {
                loop {
                    if p.eat("...") { p.expect(")")?; break; }
                    p.ty()?;
                    p.skip_attrs();
                    let nm = if p.peek() == b'%' { p.i += 1; p.name()? } else { let n = unnamed.to_string(); n };
                    if nm.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                    loc.insert(nm, nloc);
                    params.push(nloc);
                    nloc += 1;
                    if p.eat(")") { break; }
                    p.expect(",")?;
                }
            }
        }
        // gather lines of body, joining continuations
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut li = fd.line + 1;
        loop {
            let l = self.line(li);
            li += 1;
            if l == "}" { break; }
            if l.is_empty() { continue; }
            let b = l.as_bytes();
            if b[0] == b';' { continue; }
            if b[0] != b' ' {
                // label
                let e = if b[0] == b'"' { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap_or(l.len()) };
                blocks.push((l[..e].trim_matches('"').to_string(), vec![]));
                continue;
            }
            let t = l.trim();
            if t.starts_with(';') || t.starts_with("#dbg") { continue; }
            if blocks.is_empty() { blocks.push((unnamed.to_string(), vec![])); }
            let cur = &mut blocks.last_mut().unwrap().1;
            let mut s = t.to_string();
            // continuation: switch tables, invoke, landingpad clauses
            if s.starts_with("switch ") && s.ends_with('[') {
                loop { let l2 = self.line(li).trim(); li += 1; s.push(' '); s.push_str(l2); if l2.starts_with(']') { break; } }
            } else if s.contains("invoke ") && !s.contains(" unwind label ") {
                let l2 = self.line(li).trim(); li += 1; s.push(' '); s.push_str(l2);
            } else if s.contains("= landingpad ") {
                loop {
                    let l2 = self.line(li);
                    if l2.starts_with("          ") { s.push(' '); s.push_str(l2.trim()); li += 1; } else { break; }
                }
            }
            cur.push(s);
        }
        let mut bmap: FxMap<String, u32> = Default::default();
        for (i, (n, _)) in blocks.iter().enumerate() { bmap.insert(n.clone(), i as u32); }
        for (_, ls) in &blocks { for l in ls {
            if let Some((n, _)) = find_assign(l) { loc.insert(n, nloc); nloc += 1; }
        } }
        let mut out = vec![];
        for (_, ls) in &blocks {
            let mut v = vec![];
            let mut nphi = 0;
            for l in ls {
                let (dst, off) = match find_assign(l) { Some((n, o)) => (loc[&n], o), None => (NODST, 0) };
                let mut p = P { s: l.as_bytes(), i: off, m: self };
                let ins = match p.inst(&loc, &bmap) { Ok(i) => i, Err(e) => Ins::Bad(format!("{} in `{}`", e, l)) };
                let dbg = match l.rfind("!dbg !") {
                    Some(k) => l[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0),
                    None => 0,
                };
                if let Ins::Phi { .. } = ins { nphi += 1; }
                v.push(Inst { dst, dbg, ins });
            }
            out.push(Block { ins: v, nphi });
        }
        Ok(Func { id: idx as u32, name: fd.name.clone(), pretty, params, nlocals: nloc, blocks: out })
    }
}

impl<'a> P<'a> {
    fn label(&mut self, b: &FxMap<String, u32>) -> R<u32> {
        if !self.eatw("label") { return Err("label".into()); }
        self.expect("%")?;
        let n = self.name()?;
        b.get(&n).copied().ok_or(format!("block {}", n))
    }
    fn align(&mut self) -> u64 {
        while self.eat(",") {
            if self.eatw("align") { return self.int().unwrap_or(1) as u64; }
            // metadata
            if self.peek() == b'!' { return 1; }
            self.word();
        }
        1
    }
    fn inst(&mut self, loc: &FxMap<String, u32>, bm: &FxMap<String, u32>) -> R<Ins> {
        let l = Some(loc);
        let mut op = self.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = self.word(); }
        let bin = match op {
            "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv), "sdiv" => Some(Bin::SDiv), "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem),
            "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor),
            "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr),
            _ => None,
        };
        if let Some(b) = bin {
            while matches!(self.word_at(), "nuw" | "nsw" | "exact" | "disjoint") { self.word(); }
            let ty = self.ty()?;
            let x = self.val(&ty, l)?;
            self.expect(",")?;
            let y = self.val(&ty, l)?;
            return Ok(Ins::Bin { op: b, ty, a: x, b: y });
        }
        match op {
            "alloca" => {
                self.eatw("inalloca");
                let ty = self.ty()?;
                let mut n = Opd::Int(64, 1);
                let mut align = ty.align();
                while self.eat(",") {
                    if self.eatw("align") { align = self.int()? as u64; }
                    else if self.peek() == b'!' { break; }
                    else if self.eatw("addrspace") { self.skip_paren(); }
                    else { let t = self.ty()?; n = self.val(&t, l)?; }
                }
                Ok(Ins::Alloca { ty, n, align })
            }
            "load" => {
                while matches!(self.word_at(), "volatile" | "atomic") { self.word(); }
                let ty = self.ty()?;
                self.expect(",")?;
                self.ty()?;
                let p = self.val(&Ty::Ptr, l)?;
                while !matches!(self.peek(), b',' | 0) { if self.peek() == b'(' { self.skip_paren(); } else if self.word().is_empty() { self.i += 1; } }
                let align = self.align();
                Ok(Ins::Load { ty, p, align })
            }
            "store" => {
                while matches!(self.word_at(), "volatile" | "atomic") { self.word(); }
                let ty = self.ty()?;
                let v = self.val(&ty, l)?;
                self.expect(",")?;
                self.ty()?;
                let p = self.val(&Ty::Ptr, l)?;
                while !matches!(self.peek(), b',' | 0) { if self.peek() == b'(' { self.skip_paren(); } else if self.word().is_empty() { self.i += 1; } }
                let align = self.align();
                Ok(Ins::Store { ty, v, p, align })
            }
            "getelementptr" => self.gep_body(l, false),
            "icmp" => {
                self.eatw("samesign");
                let pw = self.word();
                let pred = match pw {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge,
                    _ => return Err(format!("pred {}", pw)),
                };
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                self.expect(",")?;
                let b = self.val(&ty, l)?;
                Ok(Ins::Icmp { pred, ty, a, b })
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(self.word_at(), "nneg" | "nuw" | "nsw") { self.word(); }
                let from = self.ty()?;
                let a = self.val(&from, l)?;
                if !self.eatw("to") { return Err("to".into()); }
                let to = self.ty()?;
                let op = match op { "zext" => Cast::ZExt, "sext" => Cast::SExt, "trunc" => Cast::Trunc, "bitcast" => Cast::Bit, _ => Cast::PtrInt };
                Ok(Ins::Cast { op, from, to, a })
            }
            "select" => {
                let ct = self.ty()?;
                let c = self.val(&ct, l)?;
                self.expect(",")?;
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                self.expect(",")?;
                self.ty()?;
                let b = self.val(&ty, l)?;
                Ok(Ins::Select { c, cty: ct, ty, a, b })
            }
            "phi" => {
                let ty = self.ty()?;
                let mut inc = vec![];
                loop {
                    self.expect("[")?;
                    let v = self.val(&ty, l)?;
                    self.expect(",")?;
                    self.expect("%")?;
                    let n = self.name()?;
                    self.expect("]")?;
                    inc.push((v, *bm.get(&n).ok_or(format!("phi block {}", n))?));
                    let s = self.i;
                    if !self.eat(",") { break; }
                    if self.peek() != b'[' { self.i = s; break; }
                }
                Ok(Ins::Phi { ty, inc })
            }
            "br" => {
                if self.word_at() == "label" { return Ok(Ins::Br { t: self.label(bm)? }); }
                let t = self.ty()?;
                let c = self.val(&t, l)?;
                self.expect(",")?;
                let t = self.label(bm)?;
                self.expect(",")?;
                let f = self.label(bm)?;
                Ok(Ins::CondBr { c, t, f })
            }
            "switch" => {
                let ty = self.ty()?;
                let v = self.val(&ty, l)?;
                self.expect(",")?;
                let d = self.label(bm)?;
                self.expect("[")?;
                let mut cases = vec![];
                while !self.eat("]") {
                    let t = self.ty()?;
                    let k = match self.val(&t, l)? { Opd::Int(_, k) => k, _ => return Err("case".into()) };
                    self.expect(",")?;
                    cases.push((k, self.label(bm)?));
                }
                Ok(Ins::Switch { w: ty.bits() as u16, v, d, cases })
            }
            "call" | "invoke" => {
                loop {
                    let w = self.word_at();
                    if matches!(w, "fastcc" | "ccc" | "coldcc" | "tailcc" | "preserve_mostcc" | "preserve_allcc" | "x86_64_sysvcc" | "win64cc"
                        | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "swiftcc") { self.word(); } else { break; }
                }
                self.skip_attrs();
                let ret = self.ty_ret()?;
                self.skip_attrs();
                let f = match self.peek() {
                    b'@' => { self.i += 1; Callee::Direct(self.name()?.into()) }
                    b'%' => Callee::Indirect(self.val(&Ty::Ptr, l)?),
                    _ => {
                        if self.word_at() == "asm" { return Err("inline asm".into()); }
                        Callee::Indirect(self.val(&Ty::Ptr, l)?)
                    }
                };
                self.expect("(")?;
                let mut args = vec![];
                if !self.eat(")") {
                    loop {
                        let t = self.ty()?;
                        self.skip_attrs();
                        let v = self.val(&t, l)?;
                        args.push((t, v));
                        if self.eat(")") { break; }
                        self.expect(",")?;
                    }
                }
                let mut inv = None;
                if op == "invoke" {
                    // skip attributes up to "to label"
                    let rest = std::str::from_utf8(&self.s[self.i..]).unwrap();
                    let k = rest.find(" to label ").ok_or("invoke to")?;
                    self.i += k;
                    if !self.eatw("to") { return Err("to".into()); }
                    let n = self.label(bm)?;
                    if !self.eatw("unwind") { return Err("unwind".into()); }
                    let u = self.label(bm)?;
                    inv = Some((n, u));
                }
                Ok(Ins::Call { ret, f, args, inv })
            }
            "extractvalue" => {
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                let mut idx = vec![];
                loop {
                    let s = self.i;
                    if !self.eat(",") { break; }
                    if self.peek() == b'!' { self.i = s; break; }
                    idx.push(self.int()? as u32);
                }
                Ok(Ins::Extract { ty, a, idx })
            }
            "insertvalue" => {
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                self.expect(",")?;
                let t = self.ty()?;
                let v = self.val(&t, l)?;
                let mut idx = vec![];
                loop {
                    let s = self.i;
                    if !self.eat(",") { break; }
                    if self.peek() == b'!' { self.i = s; break; }
                    idx.push(self.int()? as u32);
                }
                Ok(Ins::Insert { ty, a, v, idx })
            }
            "extractelement" => {
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                self.expect(",")?;
                let t = self.ty()?;
                let i = self.val(&t, l)?;
                Ok(Ins::ExtractElt { a, i })
            }
            "insertelement" => {
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                self.expect(",")?;
                let t = self.ty()?;
                let v = self.val(&t, l)?;
                self.expect(",")?;
                let t = self.ty()?;
                let i = self.val(&t, l)?;
                Ok(Ins::InsertElt { n: ty.nfields() as u32, a, v, i })
            }
            "shufflevector" => {
                let ty = self.ty()?;
                let a = self.val(&ty, l)?;
                self.expect(",")?;
                let t = self.ty()?;
                let b = self.val(&t, l)?;
                self.expect(",")?;
                let mt = self.ty()?;
                let mk = self.val(&mt, l)?;
                let n = mt.nfields() as usize;
                let mask = match mk {
                    Opd::Agg(v) => v.iter().map(|o| if let Opd::Int(_, k) = o { Some(*k as u32) } else { None }).collect(),
                    Opd::Zero(_) => vec![Some(0); n],
                    _ => vec![None; n],
                };
                Ok(Ins::Shuffle { n: ty.nfields() as u32, a, b, mask })
            }
            "landingpad" => {
                let _ = self.ty()?;
                let rest = std::str::from_utf8(&self.s[self.i..]).unwrap();
                Ok(Ins::LandingPad { cleanup: !rest.contains("catch") && !rest.contains("filter") })
            }
            "resume" => { let t = self.ty()?; Ok(Ins::Resume { v: self.val(&t, l)? }) }
            "freeze" => { let ty = self.ty()?; let a = self.val(&ty, l)?; Ok(Ins::Freeze { ty, a }) }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void { return Ok(Ins::Ret { v: None }); }
                Ok(Ins::Ret { v: Some(self.val(&t, l)?) })
            }
            "unreachable" => Ok(Ins::Unreachable),
            "fence" => Ok(Ins::Nop),
            "atomicrmw" => {
                self.eatw("volatile");
                let o = self.word().to_string();
                self.ty()?;
                let p = self.val(&Ty::Ptr, l)?;
                self.expect(",")?;
                let ty = self.ty()?;
                let v = self.val(&ty, l)?;
                Ok(Ins::AtomicRmw { op: o, ty, p, v })
            }
            "cmpxchg" => {
                while matches!(self.word_at(), "weak" | "volatile") { self.word(); }
                self.ty()?;
                let p = self.val(&Ty::Ptr, l)?;
                self.expect(",")?;
                let ty = self.ty()?;
                let c = self.val(&ty, l)?;
                self.expect(",")?;
                let t = self.ty()?;
                let n = self.val(&t, l)?;
                Ok(Ins::CmpXchg { ty, p, c, n })
            }
            _ => Err(format!("instruction {:?}", op)),
        }
    }
    /// return type of a call (may be followed by a parenthesised function type for varargs)
    fn ty_ret(&mut self) -> R<Ty> {
        let s = self.i;
        let c = self.peek();
        if matches!(c, b'{' | b'<' | b'[' | b'%') { return self.ty(); }
        let w = self.word();
        let t = match w {
            "void" => Ty::Void,
            "ptr" => Ty::Ptr,
            _ => { self.i = s; return self.ty(); }
        };
        if self.peek() == b'(' { self.skip_paren(); }
        Ok(t)
    }
}

// ---------- debug locations ----------
impl Module {
    fn meta_field(&self, id: u32, key: &str) -> Option<String> {
        let l = self.line(*self.meta.get(&id)?);
        let pat = format!("{}: ", key);
        let mut st = 0;
        loop {
            let k = l[st..].find(&pat)? + st;
            let prev = l.as_bytes().get(k.wrapping_sub(1)).copied().unwrap_or(b' ');
            if prev == b'(' || prev == b' ' {
                let r = &l[k + pat.len()..];
                if let Some(q) = r.strip_prefix('"') { return Some(q[..q.find('"')?].to_string()); }
                let e = r.find(|c: char| c == ',' || c == ')').unwrap_or(r.len());
                return Some(r[..e].to_string());
            }
            st = k + pat.len();
        }
    }
    fn meta_ref(&self, id: u32, key: &str) -> Option<u32> { self.meta_field(id, key)?.strip_prefix('!')?.parse().ok() }
    fn meta_kind(&self, id: u32) -> &str {
        match self.meta.get(&id) {
            Some(&l) => { let s = self.line(l); match s.find('!').and_then(|_| s[1..].find('!')) { Some(k) => { let r = &s[k + 2..]; &r[..r.find('(').unwrap_or(0)] } None => "" } }
            None => "",
        }
    }
    fn scope_of(&self, mut s: u32) -> Option<(String, String, u32)> {
        // (file, function, subprogram line)
        for _ in 0..50 {
            if self.meta_kind(s) == "DISubprogram" {
                let fr = self.meta_ref(s, "file");
                let mut f = fr.and_then(|f| self.meta_field(f, "filename")).unwrap_or_default();
                let d = fr.and_then(|f| self.meta_field(f, "directory")).unwrap_or_default();
                if !f.starts_with('/') && !d.is_empty() { f = format!("{}/{}", d, f); }
                let n = self.meta_field(s, "name").unwrap_or_default();
                let l = self.meta_field(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
                return Some((f, n, l));
            }
            s = self.meta_ref(s, "scope")?;
        }
        None
    }
    /// innermost-first chain of (file, line, function, function line)
    pub fn dbg_chain(&self, mut id: u32) -> Vec<(String, u32, String, u32)> {
        let mut v = vec![];
        for _ in 0..60 {
            if id == 0 { break; }
            let line = self.meta_field(id, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            let sc = match self.meta_ref(id, "scope").and_then(|s| self.scope_of(s)) { Some(s) => s, None => break };
            v.push((sc.0, line, sc.1, sc.2));
            match self.meta_ref(id, "inlinedAt") { Some(n) => id = n, None => break }
        }
        v
    }
    pub fn dbg_loc(&self, id: u32) -> Option<String> {
        let c = self.dbg_chain(id);
        if c.is_empty() { return None; }
        Some(c.iter().take(6).map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" < "))
    }
}

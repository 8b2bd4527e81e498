//! Textual LLVM IR reader (lazy: function bodies are decoded on first call).
use crate::expr::{mask, Op};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyR = Rc<Ty>;
#[derive(Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Opaque(u64, u64), Vec(u32, TyR), Arr(u64, TyR), Struct(Vec<TyR>, bool), Meta }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Opaque(s, _) => *s,
            Ty::Vec(n, t) => { let bits = *n as u64 * t.bits() as u64; let b = (bits + 7) / 8; b.next_power_of_two() }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0; let mut ma = 1;
                for t in ts { let a = if *packed { 1 } else { t.align() }; ma = ma.max(a); o = (o + a - 1) / a * a; o += t.size(); }
                (o + ma - 1) / ma * ma
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Opaque(_, a) => *a,
            Ty::Vec(..) => self.size().max(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => if *p { 1 } else { ts.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    pub fn field(&self, i: usize) -> (u64, TyR) {
        match self {
            Ty::Struct(ts, p) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() { let a = if *p { 1 } else { t.align() }; o = (o + a - 1) / a * a; if k == i { return (o, t.clone()); } o += t.size(); }
                panic!("field")
            }
            Ty::Arr(_, t) => (i as u64 * t.size(), t.clone()),
            Ty::Vec(_, t) => (i as u64 * t.size(), t.clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize { match self { Ty::Struct(ts, _) => ts.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

#[derive(Clone, Debug)]
pub enum V { I(u64), W(Rc<u128>), S(u32), A(Rc<Vec<V>>) }
impl V {
    pub fn konst(w: u32, v: u128) -> V { let v = v & mask(w); if w <= 64 { V::I(v as u64) } else { V::W(Rc::new(v)) } }
    pub fn zero(t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w > 64 => V::W(Rc::new(0)),
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => V::A(Rc::new((0..t.nfields()).map(|i| V::zero(&t.field(i).1)).collect())),
            _ => V::I(0),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin, USubSat, USubCond }

#[derive(Debug)]
pub struct CallI { pub d: u32, pub has_d: bool, pub callee: Opd, pub args: Vec<Opd>, pub atys: Vec<TyR>, pub rty: TyR, pub normal: u32 }

pub static AVX2: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[derive(Debug)]
pub enum I {
    Bin { op: Op, w: u32, n: u32, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, n: u32, d: u32, a: Opd, b: Opd },
    FCmp { p: u8, w: u32, n: u32, d: u32, a: Opd, b: Opd },
    FNeg { w: u32, n: u32, d: u32, a: Opd },
    Cast { k: Cast, f: TyR, t: TyR, d: u32, a: Opd },
    Load { t: TyR, d: u32, p: Opd },
    Store { t: TyR, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Alloca { d: u32, off: u64 },
    AllocaDyn { d: u32, size: u64, n: Opd },
    Select { c: Opd, vc: bool, t: TyR, d: u32, a: Opd, b: Opd },
    ExtractValue { d: u32, a: Opd, path: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, m: Vec<i32> },
    RmwI { op: Rmw, w: u32, d: u32, p: Opd, v: Opd },
    /// Another thread may come in here (before an atomic read-modify-write).
    Point,
    CmpXchg { w: u32, d: u32, p: Opd, c: Opd, v: Opd },
    Call(Box<CallI>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { w: u32, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Copy { d: u32, a: Opd },
    Nop,
    Trap(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub start: u32 }
pub struct Func { pub id: u32, pub name: String, pub nregs: u32, pub args: Vec<u32>, pub blocks: Vec<Block>, pub code: Vec<I>, pub frame_size: u64, pub arg_tys: Vec<TyR> }

pub struct FuncDecl { pub name: &'static str, pub dem: &'static str, pub body: Option<(usize, usize)>, pub decoded: RefCell<Option<&'static Func>> }
pub struct GlobalDecl { pub name: &'static str, pub ty: TyR, pub init: Option<usize>, pub ro: bool, pub addr: u64, pub size: u64 }

#[derive(Clone, Copy)]
pub enum Sym { G(u32), F(u32), Alias(usize) }

pub const WIN: u32 = 20; // object window bits
pub const FUNC_BASE: u64 = 0x7f00_0000_0000;
pub const STACK_ID: u64 = 1 << 24;
pub const HEAP_ID: u64 = 1 << 25;

pub struct Module {
    pub src: &'static [u8],
    pub types: RefCell<HashMap<&'static str, TyR>>,
    type_src: HashMap<&'static str, usize>,
    pub syms: HashMap<&'static str, Sym>,
    pub funcs: Vec<FuncDecl>,
    pub globals: Vec<GlobalDecl>,
    pub gid_by_window: Vec<u32>, // window id -> global index
}

pub struct Cur<'a> { pub m: &'a Module, pub p: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Cur<'a> {
    fn s(&self) -> &'static [u8] { self.m.src }
    pub fn ws(&mut self) { let s = self.s(); while self.p < s.len() && (s[self.p] == b' ' || s[self.p] == b'\t' || s[self.p] == b'/') { if s[self.p] == b'/' { if s[self.p + 1] != b'*' { break; } while !s[self.p..].starts_with(b"*/") { self.p += 1; } self.p += 1; } self.p += 1; } }
    pub fn wsnl(&mut self) { let s = self.s(); while self.p < s.len() && (s[self.p] == b' ' || s[self.p] == b'\t' || s[self.p] == b'\n') { self.p += 1; } }
    fn pk(&mut self) -> u8 { self.ws(); self.s()[self.p] }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s()[self.p..].starts_with(t.as_bytes()) { self.p += t.len(); true } else { false } }
    fn expect(&mut self, t: &str) { if !self.eat(t) { self.fail(&format!("expected '{}'", t)) } }
    fn fail(&self, m: &str) -> ! { let e = (self.p + 160).min(self.s().len()); panic!("IR parse: {} at: {}", m, String::from_utf8_lossy(&self.s()[self.p.saturating_sub(80)..e])) }
    fn word_at(&mut self) -> &'static str { self.ws(); let s = self.s(); let st = self.p; let mut e = st; while e < s.len() && (s[e].is_ascii_alphanumeric() || s[e] == b'_' || s[e] == b'.') { e += 1; } std::str::from_utf8(&s[st..e]).unwrap() }
    fn word(&mut self) -> &'static str { let w = self.word_at(); self.p += w.len(); w }
    fn eatw(&mut self, t: &str) -> bool { if self.word_at() == t { self.p += t.len(); true } else { false } }
    fn name(&mut self) -> &'static str {
        // after sigil
        let s = self.s();
        if s[self.p] == b'"' { let st = self.p + 1; let mut e = st; while s[e] != b'"' { e += 1; } self.p = e + 1; return std::str::from_utf8(&s[st..e]).unwrap(); }
        let st = self.p; let mut e = st; while is_id(s[e]) { e += 1; } self.p = e;
        std::str::from_utf8(&s[st..e]).unwrap()
    }
    fn balanced(&mut self) { // at '('
        let s = self.s(); let mut d = 0;
        loop { match s[self.p] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.p += 1; return; } } b'"' => { self.p += 1; while s[self.p] != b'"' { self.p += 1; } } _ => {} } self.p += 1; }
    }
    fn num(&mut self) -> u64 { self.ws(); let s = self.s(); let mut v = 0u64; let st = self.p; while s[self.p].is_ascii_digit() { v = v * 10 + (s[self.p] - b'0') as u64; self.p += 1; } if st == self.p { self.fail("number") } v }
    pub fn ty(&mut self) -> TyR {
        let c = self.pk();
        match c {
            b'[' => { self.p += 1; let n = self.num(); self.expect("x"); let t = self.ty(); self.expect("]"); Rc::new(Ty::Arr(n, t)) }
            b'<' => {
                self.p += 1;
                if self.pk() == b'{' { self.p += 1; let ts = self.tylist(); self.expect(">"); return Rc::new(Ty::Struct(ts, true)); }
                let n = self.num(); self.expect("x"); let t = self.ty(); self.expect(">"); Rc::new(Ty::Vec(n as u32, t))
            }
            b'{' => { self.p += 1; let ts = self.tylist(); Rc::new(Ty::Struct(ts, false)) }
            b'%' => { self.p += 1; let n = self.name(); self.m.named(n) }
            _ => {
                let w = self.word();
                match w {
                    "ptr" => { if self.pk() == b'a' && self.word_at() == "addrspace" { self.p += 9; self.balanced(); } Rc::new(Ty::Ptr) }
                    "void" => Rc::new(Ty::Void), "float" => Rc::new(Ty::F32), "double" => Rc::new(Ty::F64),
                    "half" | "bfloat" => Rc::new(Ty::Int(16)), "fp128" | "x86_fp80" => Rc::new(Ty::Opaque(16, 16)),
                    "metadata" | "label" | "token" => Rc::new(Ty::Meta), "opaque" => Rc::new(Ty::Opaque(0, 1)),
                    _ if w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()) && w.len() > 1 => Rc::new(Ty::Int(w[1..].parse().unwrap())),
                    _ => { self.p -= w.len(); self.fail("type") }
                }
            }
        }
    }
    fn tylist(&mut self) -> Vec<TyR> {
        let mut v = vec![];
        if self.pk() == b'}' { self.p += 1; return v; }
        loop { v.push(self.ty()); if self.eat(",") { continue; } self.expect("}"); return v; }
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.pk();
            if c == b'"' { self.p += 1; while self.s()[self.p] != b'"' { self.p += 1; } self.p += 1; if self.s()[self.p] == b'=' { self.p += 1; if self.pk() == b'"' { self.p += 1; while self.s()[self.p] != b'"' { self.p += 1; } self.p += 1; } } continue; }
            if !c.is_ascii_lowercase() { return; }
            let w = self.word_at();
            match w {
                "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "splat" | "c" | "trunc" | "add" | "sub" | "bitcast" | "blockaddress" | "none" | "asm" | "xor" | "addrspacecast" => return,
                _ => {}
            }
            if w.starts_with("f0x") { return; }
            self.p += w.len();
            if w == "align" { if self.pk() == b'(' { self.balanced(); } else { self.num(); } continue; }
            if self.s()[self.p] == b'(' { self.balanced(); }
        }
    }
    /// constant (operand position)
    pub fn konst(&mut self, t: &Ty) -> V {
        let c = self.pk();
        match c {
            b'@' => { self.p += 1; let n = self.name(); return V::I(self.m.sym_addr(n)); }
            b'<' if matches!(t, Ty::Vec(..)) => { self.p += 1; let v = self.klist(">"); return V::A(Rc::new(v)); }
            b'<' => { self.p += 1; self.expect("{"); let v = self.klist("}"); self.expect(">"); return V::A(Rc::new(v)); }
            b'{' => { self.p += 1; let v = self.klist("}"); return V::A(Rc::new(v)); }
            b'[' => { self.p += 1; let v = self.klist("]"); return V::A(Rc::new(v)); }
            b'c' if self.s()[self.p + 1] == b'"' => { self.p += 1; let b = self.cstr(); return V::A(Rc::new(b.into_iter().map(|x| V::I(x as u64)).collect())); }
            _ => {}
        }
        if matches!(c, b'+' | b'-') && self.s()[self.p + 1].is_ascii_alphabetic() {
            self.p += 1; let w = self.word();
            let w32 = t.bits() == 32;
            let (exp, q) = if w32 { (0x7f80_0000u64, 0x40_0000u64) } else { (0x7ff0_0000_0000_0000, 0x8_0000_0000_0000) };
            let mut v = match w { "inf" => exp, "qnan" | "nan" => exp | q, "snan" => exp, _ => self.fail("fp constant") };
            if self.s()[self.p] == b'(' { self.p += 1; self.expect("0x"); let st = self.p; while self.s()[self.p] != b')' { self.p += 1; } v |= u64::from_str_radix(std::str::from_utf8(&self.s()[st..self.p]).unwrap(), 16).unwrap(); self.p += 1; }
            if c == b'-' { v |= if w32 { 1 << 31 } else { 1 << 63 }; }
            return V::I(v);
        }
        if c == b'f' && self.s()[self.p..].starts_with(b"f0x") {
            self.p += 3; let st = self.p; while self.s()[self.p].is_ascii_hexdigit() { self.p += 1; }
            return V::I(u64::from_str_radix(std::str::from_utf8(&self.s()[st..self.p]).unwrap(), 16).unwrap());
        }
        if c == b'-' || c == b'+' || c.is_ascii_digit() {
            let s = self.s(); let st = self.p; self.p += 1;
            while s[self.p].is_ascii_alphanumeric() || s[self.p] == b'.' || ((s[self.p] == b'+' || s[self.p] == b'-') && (s[self.p - 1] == b'e')) { self.p += 1; }
            let txt = std::str::from_utf8(&s[st..self.p]).unwrap();
            return match t {
                Ty::F64 => V::I(pf(txt).to_bits()),
                Ty::F32 => V::I((pf(txt) as f32).to_bits() as u64),
                _ => { let w = t.bits(); let v: u128 = if let Some(r) = txt.strip_prefix('-') { (r.parse::<u128>().unwrap()).wrapping_neg() } else { txt.parse().unwrap() }; V::konst(w, v) }
            };
        }
        let w = self.word();
        match w {
            "null" | "none" => V::I(0), "true" => V::I(1), "false" => V::I(0),
            "undef" | "poison" | "zeroinitializer" => V::zero(t),
            "splat" => { self.expect("("); let et = self.ty(); let v = self.konst(&et); self.expect(")"); V::A(Rc::new(vec![v; t.nfields()])) }
            "getelementptr" => {
                loop { if self.eat("(") { break; } let k = self.word(); if k == "inrange" { self.ws(); self.balanced(); } else if k.is_empty() { self.fail("gep const") } }
                let st = self.ty(); self.expect(",");
                let bt = self.ty(); let b = self.konst(&bt);
                let mut addr = if let V::I(x) = b { x } else { self.fail("gep base") };
                let mut cur: Option<TyR> = None; let mut first = true;
                while self.eat(",") {
                    let it = self.ty(); let iv = self.konst(&it);
                    let k = if let V::I(x) = iv { crate::expr::sext(x as u128, it.bits()) as i64 } else { self.fail("gep idx") };
                    if first { addr = addr.wrapping_add((k as u64).wrapping_mul(st.size())); cur = Some(st.clone()); first = false; }
                    else { let (o, nt) = cur.take().unwrap().field(k as usize); addr = addr.wrapping_add(o); cur = Some(nt); }
                }
                self.expect(")");
                V::I(addr)
            }
            "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                self.expect("("); let ft = self.ty(); let v = self.konst(&ft); self.eatw("to"); let tt = self.ty(); self.expect(")");
                if let (V::I(x), b) = (&v, tt.bits()) { if b > 0 && b < 64 { return V::I(x & ((1 << b) - 1)); } }
                v
            }
            "add" | "sub" | "xor" => {
                while !self.eat("(") { self.word(); }
                let t1 = self.ty(); let a = self.konst(&t1); self.expect(","); let t2 = self.ty(); let b = self.konst(&t2); self.expect(")");
                if let (V::I(x), V::I(y)) = (a, b) { let r = match w { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), _ => x ^ y }; V::konst(t1.bits(), r as u128) } else { self.fail("const expr") }
            }
            _ => { self.p -= w.len(); self.fail("constant") }
        }
    }
    fn klist(&mut self, end: &str) -> Vec<V> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop { let t = self.ty(); v.push(self.konst(&t)); if self.eat(",") { continue; } self.expect(end); return v; }
    }
    fn cstr(&mut self) -> Vec<u8> {
        let s = self.s(); self.p += 1; let mut out = vec![];
        loop {
            match s[self.p] {
                b'"' => { self.p += 1; return out; }
                b'\\' => { if s[self.p + 1] == b'\\' { out.push(b'\\'); self.p += 2; } else { let h = |c: u8| (c as char).to_digit(16).unwrap() as u8; out.push(h(s[self.p + 1]) * 16 + h(s[self.p + 2])); self.p += 3; } }
                c => { out.push(c); self.p += 1; }
            }
        }
    }
    /// write constant initialiser bytes
    pub fn init(&mut self, t: &Ty, buf: &mut [u8], off: usize) {
        let c = self.pk();
        if c == b'c' && self.s()[self.p + 1] == b'"' { self.p += 1; let b = self.cstr(); buf[off..off + b.len()].copy_from_slice(&b); return; }
        let w = self.word_at();
        if w == "zeroinitializer" || w == "undef" || w == "poison" { self.p += w.len(); return; }
        match t {
            Ty::Struct(ts, packed) => {
                if *packed { self.expect("<"); }
                self.expect("{");
                for i in 0..ts.len() { if i > 0 { self.expect(","); } let ft = self.ty(); let (o, _) = t.field(i); self.init(&ft, buf, off + o as usize); }
                self.expect("}"); if *packed { self.expect(">"); }
            }
            Ty::Arr(n, et) => { if w == "splat" { self.fail("splat init") } self.expect("["); for i in 0..*n { if i > 0 { self.expect(","); } let ft = self.ty(); self.init(&ft, buf, off + (i * et.size()) as usize); } self.expect("]"); }
            Ty::Vec(..) => { let v = self.konst(t); let (_, et) = t.field(0); let es = et.size() as usize; if let V::A(xs) = v { for (i, x) in xs.iter().enumerate() { put(&et, x, buf, off + i * es); } } }
            _ => { let v = self.konst(t); put(t, &v, buf, off); }
        }
    }
}
fn put(t: &Ty, v: &V, buf: &mut [u8], off: usize) {
    let n = ((t.bits() + 7) / 8) as usize;
    let x: u128 = match v { V::I(x) => *x as u128, V::W(x) => **x, _ => panic!("put") };
    buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
}
fn pf(t: &str) -> f64 { if let Some(h) = t.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { t.parse().unwrap() } }

impl Module {
    fn named(&self, n: &'static str) -> TyR {
        if let Some(t) = self.types.borrow().get(n) { return t.clone(); }
        let p = *self.type_src.get(n).unwrap_or_else(|| panic!("type %{n}"));
        let mut c = Cur { m: self, p };
        let t = c.ty();
        self.types.borrow_mut().insert(n, t.clone());
        t
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.syms.get(n) {
            Some(Sym::G(g)) => self.globals[*g as usize].addr,
            Some(Sym::F(f)) => FUNC_BASE + *f as u64 * 16,
            Some(Sym::Alias(p)) => { let mut c = Cur { m: self, p: *p }; let t = c.ty(); c.expect(","); let _ = t; let t2 = c.ty(); if let V::I(x) = c.konst(&t2) { x } else { panic!() } }
            None => panic!("unknown symbol @{n}"),
        }
    }
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).unwrap_or_else(|e| panic!("read {path}: {e}"));
        let src: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module { src, types: Default::default(), type_src: HashMap::new(), syms: HashMap::new(), funcs: vec![], globals: vec![], gid_by_window: vec![u32::MAX; 16] };
        let mut p = 0;
        let n = src.len();
        let mut last_comment: &'static str = "";
        let mut gpend: Vec<(&'static str, usize)> = vec![];
        while p < n {
            let e = memchr(src, p, b'\n');
            let line = &src[p..e];
            match line.first() {
                Some(b';') => { let t = std::str::from_utf8(&line[1..]).unwrap_or("").trim(); if !t.starts_with("Function Attrs") { last_comment = t; } }
                Some(b'%') => {
                    // %name = type ...
                    let mut c = Cur { m: &m, p: p + 1 };
                    let nm = c.name(); c.expect("="); c.expect("type");
                    let tp = c.p;
                    m.type_src.insert(nm, tp);
                }
                Some(b'@') => {
                    let mut c = Cur { m: &m, p: p + 1 };
                    let nm = c.name(); c.expect("=");
                    gpend.push((nm, c.p));
                    last_comment = "";
                }
                Some(b'd') if line.starts_with(b"define ") || line.starts_with(b"declare ") => {
                    let def = line[2] == b'f';
                    let at = fn_name_pos(line);
                    let mut c = Cur { m: &m, p: p + at + 1 };
                    let nm = c.name();
                    let id = m.funcs.len() as u32;
                    let mut end = e;
                    if def {
                        // find "\n}\n"
                        let mut q = e;
                        loop { if src[q + 1] == b'}' { break; } q = memchr(src, q + 1, b'\n'); }
                        end = q + 2;
                    }
                    m.funcs.push(FuncDecl { name: nm, dem: last_comment, body: if def { Some((p, end)) } else { None }, decoded: RefCell::new(None) });
                    m.syms.insert(nm, Sym::F(id));
                    last_comment = "";
                    p = end + 1;
                    continue;
                }
                None => { last_comment = ""; }
                _ => { last_comment = ""; }
            }
            p = e + 1;
        }
        // globals: register first (addresses need sizes)
        let mut win = 16u64;
        for (nm, gp) in &gpend {
            let mut c = Cur { m: &m, p: *gp };
            let kind; let mut external = false;
            loop {
                let w = c.word();
                match w {
                    "global" | "constant" | "alias" | "ifunc" => { kind = w; break; }
                    "external" | "extern_weak" => external = true,
                    "" => { if c.pk() == b'"' { c.skip_attrs(); } else { c.fail("global") } }
                    _ => { if c.s()[c.p] == b'(' { c.balanced(); } }
                }
            }
            if kind == "alias" { let p = c.p; m.syms.insert(nm, Sym::Alias(p)); continue; }
            let ty = c.ty();
            let init = if external { None } else { Some(c.p) };
            let size = ty.size();
            let id = m.globals.len() as u32;
            let addr = win << WIN;
            let nwin = 1 + (size >> WIN);
            for _ in 0..nwin { m.gid_by_window.push(id); }
            win += nwin;
            m.globals.push(GlobalDecl { name: nm, ty, init, ro: kind == "constant", addr, size });
            m.syms.insert(nm, Sym::G(id));
        }
        if !m.syms.contains_key("getrandom") { let id = m.funcs.len() as u32; m.funcs.push(FuncDecl { name: "getrandom", dem: "", body: None, decoded: RefCell::new(None) }); m.syms.insert("getrandom", Sym::F(id)); }
        assert!(win < STACK_ID);
        m
    }
    pub fn global_bytes(&self, g: u32) -> Vec<u8> {
        let d = &self.globals[g as usize];
        let mut b = vec![0u8; d.size as usize];
        if let Some(p) = d.init { let mut c = Cur { m: self, p }; c.init(&d.ty, &mut b, 0); }
        b
    }
    pub fn func(&self, id: u32) -> Option<&'static Func> {
        let d = &self.funcs[id as usize];
        if let Some(f) = *d.decoded.borrow() { return Some(f); }
        let (st, en) = d.body?;
        let f = Decoder::decode(self, id, st, en);
        let f: &'static Func = Box::leak(Box::new(f));
        *d.decoded.borrow_mut() = Some(f);
        Some(f)
    }
}
fn memchr(s: &[u8], from: usize, c: u8) -> usize { let mut i = from; while i < s.len() && s[i] != c { i += 1; } i }
fn fn_name_pos(line: &[u8]) -> usize { // first '@' at paren depth 0 that is followed by name and '('
    let mut d = 0;
    for (i, &c) in line.iter().enumerate() { match c { b'(' => d += 1, b')' => d -= 1, b'@' if d == 0 => return i, _ => {} } }
    panic!("no name")
}

struct Decoder<'a> { c: Cur<'a>, regs: HashMap<&'static str, u32>, labels: HashMap<&'static str, u32>, nlab: u32, cur_blk_label: u32, end: usize }

impl<'a> Decoder<'a> {
    fn reg(&mut self, n: &'static str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn lab(&mut self, n: &'static str) -> u32 { if let Some(&l) = self.labels.get(n) { return l; } let l = self.nlab; self.nlab += 1; self.labels.insert(n, l); l }
    fn opd(&mut self, t: &Ty) -> Opd {
        if self.c.pk() == b'%' { self.c.p += 1; let n = self.c.name(); Opd::R(self.reg(n)) } else { Opd::C(self.c.konst(t)) }
    }
    fn topd(&mut self) -> (TyR, Opd) { let t = self.c.ty(); self.c.skip_attrs(); let o = if *t == Ty::Meta { self.skip_meta(); Opd::C(V::I(0)) } else { self.opd(&t) }; (t, o) }
    fn skip_meta(&mut self) { // metadata operand: skip until , or ) at depth 0
        let s = self.c.s(); let mut d = 0;
        loop { match s[self.c.p] { b'(' | b'{' => d += 1, b')' | b'}' if d > 0 => d -= 1, b',' | b')' if d == 0 => return, b'"' => { self.c.p += 1; while s[self.c.p] != b'"' { self.c.p += 1; } } _ => {} } self.c.p += 1; }
    }
    fn label(&mut self) -> u32 { self.c.expect("label"); self.c.expect("%"); let n = self.c.name(); self.lab(n) }
    fn eol(&mut self) { let s = self.c.s(); while s[self.c.p] != b'\n' { self.c.p += 1; } }

    fn decode(m: &'a Module, id: u32, st: usize, en: usize) -> Func {
        let line_end = memchr(m.src, st, b'\n');
        let at = st + fn_name_pos(&m.src[st..line_end]);
        let mut d = Decoder { c: Cur { m, p: at + 1 }, regs: HashMap::new(), labels: HashMap::new(), nlab: 0, cur_blk_label: 0, end: en };
        let name = d.c.name();
        d.c.expect("(");
        let mut args = vec![]; let mut arg_tys = vec![];
        if !d.c.eat(")") {
            let mut auto = 0;
            loop {
                if d.c.eat("...") { d.c.expect(")"); break; }
                let t = d.c.ty(); d.c.skip_attrs();
                let r = if d.c.pk() == b'%' { d.c.p += 1; let n = d.c.name(); d.reg(n) } else { let s: &'static str = Box::leak(format!("{}", auto).into_boxed_str()); d.reg(s) };
                auto += 1;
                args.push(r); arg_tys.push(t);
                if d.c.eat(",") { continue; }
                d.c.expect(")"); break;
            }
        }
        d.c.p = line_end + 1;
        let mut blocks: Vec<(u32, Block)> = vec![];
        let mut code: Vec<I> = vec![];
        let mut frame = 0u64;
        let nargs = args.len();
        let _ = nargs;
        let mut first = true;
        let mut last_d: u32;
        loop {
            // line start
            let s = m.src;
            while d.c.p < d.end && s[d.c.p] == b'\n' { d.c.p += 1; }
            if s[d.c.p] == b'}' { break; }
            if s[d.c.p] == b';' { d.eol(); continue; }
            if s[d.c.p] != b' ' {
                // label
                let n = d.c.name();
                if s[d.c.p] != b':' { d.c.fail("label") }
                let l = d.lab(n);
                d.cur_blk_label = l;
                blocks.push((l, Block { phis: vec![], start: code.len() as u32 }));
                first = false;
                d.eol();
                continue;
            }
            if first {
                // implicit entry label: its number is the count of unnamed args
                let nm: &'static str = Box::leak(format!("{}", args.len()).into_boxed_str());
                let l = d.lab(nm);
                d.cur_blk_label = l;
                blocks.push((l, Block { phis: vec![], start: 0 }));
                first = false;
            }
            d.c.ws();
            if s[d.c.p] == b';' { d.eol(); continue; }
            // instruction
            let mut dst = 0; let mut has = false;
            if s[d.c.p] == b'%' { d.c.p += 1; let n = d.c.name(); dst = d.reg(n); has = true; d.c.expect("="); }
            last_d = dst;
            let _ = last_d;
            let in_entry = blocks.len() == 1;
            d.instr(dst, has, &mut code, &mut blocks, &mut frame, in_entry);
            d.eol();
        }
        // remap labels to block indices
        let mut map = vec![u32::MAX; d.nlab as usize];
        for (i, (l, _)) in blocks.iter().enumerate() { map[*l as usize] = i as u32; }
        for i in code.iter_mut() {
            match i {
                I::Br(t) => *t = map[*t as usize],
                I::CondBr(_, a, b) => { *a = map[*a as usize]; *b = map[*b as usize]; }
                I::Switch { def, cases, .. } => { *def = map[*def as usize]; for c in cases { c.1 = map[c.1 as usize]; } }
                I::Call(c) if c.normal != u32::MAX => c.normal = map[c.normal as usize],
                _ => {}
            }
        }
        let mut bl: Vec<Block> = blocks.into_iter().map(|b| b.1).collect();
        for b in bl.iter_mut() { for ph in b.phis.iter_mut() { for inc in ph.1.iter_mut() { inc.0 = map[inc.0 as usize]; } } }
        Func { id, name: name.to_string(), nregs: d.regs.len() as u32, args, blocks: bl, code, frame_size: frame, arg_tys }
    }

    fn vinfo(t: &Ty) -> (u32, u32) { match t { Ty::Vec(n, e) => (e.bits(), *n), _ => (t.bits(), 0) } }

    fn instr(&mut self, d: u32, has: bool, code: &mut Vec<I>, blocks: &mut Vec<(u32, Block)>, frame: &mut u64, in_entry: bool) {
        let w = self.c.word();
        let bin = |s: &str| -> Option<Op> { Some(match s { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, "frem" => Op::FRem, _ => return None }) };
        if let Some(op) = bin(w) {
            while matches!(self.c.word_at(), "nuw" | "nsw" | "exact" | "disjoint" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { self.c.word(); }
            let t = self.c.ty(); let a = self.opd(&t); self.c.expect(","); let b = self.opd(&t);
            let (w, n) = Self::vinfo(&t);
            code.push(I::Bin { op, w, n, d, a, b });
            return;
        }
        match w {
            "icmp" => {
                let mut p = self.c.word(); if p == "samesign" { p = self.c.word(); }
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => self.c.fail("pred") };
                let t = self.c.ty(); let a = self.opd(&t); self.c.expect(","); let b = self.opd(&t);
                let (w, n) = Self::vinfo(&t);
                code.push(I::ICmp { p, w, n, d, a, b });
            }
            "fcmp" => {
                let mut p = self.c.word();
                while matches!(p, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { p = self.c.word(); }
                // bit0: eq, bit1: gt, bit2: lt, bit3: uno
                let p = match p { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, _ => self.c.fail("fpred") };
                let t = self.c.ty(); let a = self.opd(&t); self.c.expect(","); let b = self.opd(&t);
                let (w, n) = Self::vinfo(&t);
                code.push(I::FCmp { p, w, n, d, a, b });
            }
            "fneg" => { let t = self.c.ty(); let a = self.opd(&t); let (w, n) = Self::vinfo(&t); code.push(I::FNeg { w, n, d, a }); }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" => {
                while matches!(self.c.word_at(), "nuw" | "nsw" | "nneg") { self.c.word(); }
                let f = self.c.ty(); let a = self.opd(&f); self.c.expect("to"); let t = self.c.ty();
                let k = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" | "addrspacecast" => Cast::Bitcast,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => if f.bits() > t.bits() { Cast::Trunc } else if f.bits() < t.bits() { Cast::ZExt } else { Cast::Bitcast },
                    "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptrunc" => Cast::FpTrunc, _ => Cast::FpExt };
                if k == Cast::Bitcast && f.scalar() && t.scalar() { code.push(I::Copy { d, a }); } else { code.push(I::Cast { k, f, t, d, a }); }
            }
            "freeze" => { let (_, a) = self.topd(); code.push(I::Copy { d, a }); }
            "load" => {
                while matches!(self.c.word_at(), "atomic" | "volatile") { self.c.word(); }
                let t = self.c.ty(); self.c.expect(","); let (_, p) = self.topd();
                code.push(I::Load { t, d, p });
            }
            "store" => {
                while matches!(self.c.word_at(), "atomic" | "volatile") { self.c.word(); }
                let (t, v) = self.topd(); self.c.expect(","); let (_, p) = self.topd();
                // a sequentially consistent store is an exchange on the machine: a preemption point
                if self.c.word_at() == "seq_cst" { code.push(I::Point); }
                code.push(I::Store { t, v, p });
            }
            "getelementptr" => {
                while matches!(self.c.word_at(), "inbounds" | "nuw" | "nusw") { self.c.word(); }
                let st = self.c.ty(); self.c.expect(",");
                let (bt, base) = self.topd();
                if let Ty::Vec(..) = *bt { code.push(I::Trap("vector gep".into())); return; }
                let mut off = 0i64; let mut idx = vec![]; let mut cur: TyR = st.clone(); let mut first = true;
                while self.c.eat(",") {
                    if self.c.pk() == b'!' { break; }
                    let (it, iv) = self.topd();
                    let scale;
                    if first { scale = st.size() as i64; first = false; }
                    else {
                        match &*cur.clone() {
                            Ty::Struct(..) => { if let Opd::C(V::I(k)) = iv { let (o, nt) = cur.field(k as usize); off += o as i64; cur = nt; continue; } else { self.c.fail("struct idx") } }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => { scale = e.size() as i64; let e = e.clone(); cur = e; }
                            _ => self.c.fail("gep type"),
                        }
                    }
                    match iv { Opd::C(V::I(k)) => off = off.wrapping_add((crate::expr::sext(k as u128, it.bits()) as i64).wrapping_mul(scale)), o => idx.push((o, it.bits(), scale)) }
                }
                code.push(I::Gep { d, base, off, idx });
            }
            "alloca" => {
                if self.c.word_at() == "inalloca" { self.c.word(); }
                let t = self.c.ty();
                let mut n: Option<Opd> = None; let mut al = t.align();
                while self.c.eat(",") {
                    if self.c.pk() == b'!' { break; }
                    if self.c.eatw("align") { al = self.c.num(); } else { let (_, o) = self.topd(); n = Some(o); }
                }
                let cnt = match n { None => Some(1), Some(Opd::C(V::I(k))) => Some(k), _ => None };
                if in_entry && cnt.is_some() { *frame = (*frame + al - 1) / al * al; let off = *frame; *frame += t.size() * cnt.unwrap() + 8; code.push(I::Alloca { d, off }); }
                else { let nn = n.unwrap_or(Opd::C(V::I(cnt.unwrap_or(1)))); code.push(I::AllocaDyn { d, size: t.size(), n: nn }); }
            }
            "select" => {
                while matches!(self.c.word_at(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { self.c.word(); }
                let (ct, c) = self.topd(); self.c.expect(","); let (t, a) = self.topd(); self.c.expect(","); let (_, b) = self.topd();
                code.push(I::Select { c, vc: matches!(*ct, Ty::Vec(..)), t, d, a, b });
            }
            "extractvalue" => { let (_, a) = self.topd(); let mut path = vec![]; while self.c.eat(",") { if self.c.pk() == b'!' { break; } path.push(self.c.num() as u32); } code.push(I::ExtractValue { d, a, path }); }
            "insertvalue" => { let (_, a) = self.topd(); self.c.expect(","); let (_, v) = self.topd(); let mut path = vec![]; while self.c.eat(",") { if self.c.pk() == b'!' { break; } path.push(self.c.num() as u32); } code.push(I::InsertValue { d, a, v, path }); }
            "extractelement" => { let (_, a) = self.topd(); self.c.expect(","); let (_, i) = self.topd(); code.push(I::ExtractElem { d, a, i }); }
            "insertelement" => { let (_, a) = self.topd(); self.c.expect(","); let (_, v) = self.topd(); self.c.expect(","); let (_, i) = self.topd(); code.push(I::InsertElem { d, a, v, i }); }
            "shufflevector" => {
                let (t, a) = self.topd(); self.c.expect(","); let (_, b) = self.topd(); self.c.expect(",");
                let mt = self.c.ty(); self.c.skip_attrs();
                let mv = self.c.konst(&mt);
                let m = if let V::A(xs) = mv { xs.iter().map(|x| if let V::I(k) = x { *k as i32 } else { -1 }).collect() } else { vec![] };
                code.push(I::Shuffle { d, a, b, n: t.nfields() as u32, m });
            }
            "atomicrmw" => {
                if self.c.word_at() == "volatile" { self.c.word(); }
                let o = self.c.word();
                let op = match o { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "nand" => Rmw::Nand, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "usub_sat" => Rmw::USubSat, "usub_cond" => Rmw::USubCond, _ => self.c.fail("rmw") };
                let (_, p) = self.topd(); self.c.expect(","); let (t, v) = self.topd();
                code.push(I::Point);
                code.push(I::RmwI { op, w: t.bits(), d, p, v });
            }
            "cmpxchg" => {
                while matches!(self.c.word_at(), "weak" | "volatile") { self.c.word(); }
                let (_, p) = self.topd(); self.c.expect(","); let (t, c) = self.topd(); self.c.expect(","); let (_, v) = self.topd();
                code.push(I::Point);
                code.push(I::CmpXchg { w: t.bits(), d, p, c, v });
            }
            "fence" => code.push(I::Nop),
            "br" => {
                if self.c.word_at() == "label" { let l = self.label(); code.push(I::Br(l)); }
                else { let (_, c) = self.topd(); self.c.expect(","); let a = self.label(); self.c.expect(","); let b = self.label(); code.push(I::CondBr(c, a, b)); }
            }
            "switch" => {
                let (t, v) = self.topd(); self.c.expect(","); let def = self.label(); self.c.expect("[");
                let mut cases = vec![];
                loop {
                    self.c.wsnl();
                    if self.c.eat("]") { break; }
                    let ct = self.c.ty(); let k = self.c.konst(&ct); self.c.expect(","); let l = self.label();
                    cases.push((match k { V::I(x) => x as u128, V::W(x) => *x, _ => 0 }, l));
                }
                code.push(I::Switch { w: t.bits(), v, def, cases });
            }
            "phi" => {
                while matches!(self.c.word_at(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { self.c.word(); }
                let t = self.c.ty(); let mut inc = vec![];
                loop {
                    self.c.expect("["); let v = self.opd(&t); self.c.expect(","); self.c.expect("%"); let n = self.c.name(); let l = self.lab(n); self.c.expect("]");
                    inc.push((l, v));
                    let save = self.c.p;
                    if self.c.eat(",") { if self.c.pk() == b'!' { self.c.p = save; break; } continue; }
                    break;
                }
                blocks.last_mut().unwrap().1.phis.push((d, inc));
            }
            "ret" => { let t = self.c.ty(); if *t == Ty::Void { code.push(I::Ret(None)); } else { self.c.skip_attrs(); let v = self.opd(&t); code.push(I::Ret(Some(v))); } }
            "unreachable" => code.push(I::Unreachable),
            "landingpad" => {
                let _ = self.c.ty();
                loop { // clauses on following lines
                    let save = self.c.p;
                    self.c.wsnl();
                    match self.c.word_at() { "cleanup" => { self.c.word(); } "catch" => { self.c.word(); let t = self.c.ty(); self.c.konst(&t); } "filter" => { self.c.word(); let t = self.c.ty(); self.c.konst(&t); } _ => { self.c.p = save; break; } }
                }
                code.push(I::Trap("landingpad".into()));
            }
            "resume" => code.push(I::Trap("resume".into())),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut kw = w;
                if kw != "call" && kw != "invoke" { kw = self.c.word(); }
                self.call(d, has, kw == "invoke", code);
            }
            _ => { code.push(I::Trap(format!("instr {w}"))); }
        }
    }
    fn call(&mut self, d: u32, has: bool, invoke: bool, code: &mut Vec<I>) {
        // fast-math flags, cconv, ret attrs
        loop {
            let c = self.c.pk();
            if c == b'"' { self.c.skip_attrs(); continue; }
            if !c.is_ascii_lowercase() { break; }
            let w = self.c.word_at();
            let is_ty = matches!(w, "ptr" | "void" | "float" | "double" | "half" | "metadata" | "token" | "fp128" | "x86_fp80") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()));
            if is_ty { break; }
            self.c.p += w.len();
            if w == "align" { if self.c.pk() == b'(' { self.c.balanced(); } else { self.c.num(); } continue; }
            if self.c.s()[self.c.p] == b'(' { self.c.balanced(); }
        }
        let rty = self.c.ty();
        if self.c.pk() == b'(' { self.c.balanced(); } // function type of a variadic callee
        self.c.skip_attrs();
        let mut asm = None;
        let callee = if self.c.word_at() == "asm" {
            self.c.word();
            while matches!(self.c.word_at(), "sideeffect" | "alignstack" | "inteldialect" | "unwind") { self.c.word(); }
            self.c.ws(); let a = self.c.cstr(); self.c.expect(","); self.c.ws(); let b = self.c.cstr();
            asm = Some(format!("{} | {}", String::from_utf8_lossy(&a), String::from_utf8_lossy(&b)));
            Opd::C(V::I(0))
        } else { self.opd(&Ty::Ptr) };
        self.c.expect("(");
        let mut args = vec![]; let mut atys = vec![];
        if !self.c.eat(")") {
            loop {
                let (t, o) = self.topd();
                args.push(o); atys.push(t);
                if self.c.eat(",") { continue; }
                self.c.expect(")"); break;
            }
        }
        let mut normal = u32::MAX;
        if invoke {
            // skip attrs until "to label"
            loop { let s = self.c.s(); self.c.wsnl(); if s[self.c.p..].starts_with(b"to label") { break; } if s[self.c.p] == b'#' { self.c.p += 1; self.c.num(); } else if s[self.c.p] == b'[' { while s[self.c.p] != b']' { self.c.p += 1; } self.c.p += 1; } else { self.c.skip_attrs(); } }
            self.c.expect("to"); normal = self.label(); self.c.expect("unwind"); let _ = self.label();
        }
        if let Some(a) = asm {
            // empty templates are compiler barriers (optionally passing a tied register through); others trap when executed
            let (tpl, cons) = a.split_once(" | ").unwrap_or((&a, ""));
            let empty = tpl.trim().is_empty() || (tpl.starts_with("/*") && tpl.ends_with("*/"));
            if empty && !has { code.push(I::Nop); }
            else if empty && cons.starts_with("=&r,0") && args.len() == 1 { let x = args.pop().unwrap(); code.push(I::Copy { d, a: x }); }
            // the modelled CPU reports no optional features, or (`//! cpu: avx2`) AVX2 alone; the result is (ebx, eax, ecx, edx)
            else if tpl.contains("cpuid") && has && args.iter().all(|x| matches!(x, Opd::C(_))) {
                let leaf = match &args[0] { Opd::C(V::I(l)) => *l, _ => 0 };
                let (b, x, c) = if !AVX2.load(std::sync::atomic::Ordering::Relaxed) { (0, 0, 0) } else { match leaf { 0 => (0, 7, 0), 1 => (0, 0, 7 << 26), 7 => (1 << 5, 0, 0), _ => (0, 0, 0) } };
                code.push(I::Copy { d, a: Opd::C(V::A(Rc::new(vec![V::I(b), V::I(x), V::I(c), V::I(0)]))) });
            }
            else { code.push(I::Trap(format!("asm {a}"))); }
            return;
        }
        code.push(I::Call(Box::new(CallI { d, has_d: has, callee, args, atys, rty, normal })));
    }
}

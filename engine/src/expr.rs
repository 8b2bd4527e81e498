//! Hash-consed bit-vector expression DAG with eager simplification and unsigned range tracking.
use std::collections::HashMap;
use std::rc::Rc;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    None, Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Not, Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, SExt,
    // floating point (operands are bit patterns of width 32 or 64)
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FUno, FSqrt,
    FRoundNE, FRoundZ, FRoundUp, FRoundDn, FRoundNA,
    UiToF, SiToF, FToUi, FToSi, FCvt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: u32, pub b: u32, pub c: u32 }

pub struct Arena {
    tv: HashMap<E, Rc<Vec<u128>>>,
    bs: HashMap<E, Option<(u32, [u64; 4])>>,
    cn: HashMap<E, E>,
    fpn: HashMap<E, bool>,
    pub nodes: Vec<Node>,
    pub rng: Vec<(u64, u64)>,
    tab: FxMap<Node, E>,
    hi_tab: Vec<u64>,
    hi_map: FxMap<u64, u32>,
    pub vars: Vec<(String, u8)>,
    var_map: HashMap<String, u32>,
    // evaluation memo
    memo: Vec<u128>,
    stamp: Vec<u32>,
    epoch: u32,
    epoch_model: u64,
    // variable-set memo
    vs: Vec<u32>,
    vsets: Vec<Vec<u64>>,
    vset_map: HashMap<Vec<u64>, u32>,
}

#[derive(Clone, Debug)]
pub struct Model { pub id: u64, pub vals: Vec<u64> }
impl Model { pub fn get(&self, v: u32) -> u64 { self.vals.get(v as usize).copied().unwrap_or(0) } }

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { tv: HashMap::new(), bs: HashMap::new(), cn: HashMap::new(), fpn: HashMap::new(),
            nodes: vec![], rng: vec![], tab: Default::default(), hi_tab: vec![0], hi_map: Default::default(),
            vars: vec![], var_map: HashMap::new(), memo: vec![], stamp: vec![], epoch: 1, epoch_model: u64::MAX,
            vs: vec![], vsets: vec![vec![]], vset_map: HashMap::new(),
        };
        a.vset_map.insert(vec![], 0);
        a.nodes.push(Node { op: Op::None, w: 0, a: 0, b: 0, c: 0 });
        a.rng.push((0, 0));
        a.vs.push(0);
        a
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.tab.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let r = self.compute_range(&n);
        self.nodes.push(n);
        self.rng.push(r);
        self.vs.push(u32::MAX);
        self.tab.insert(n, e);
        e
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        let lo = v as u64;
        let hi = (v >> 64) as u64;
        let c = if hi == 0 { 0 } else {
            match self.hi_map.get(&hi) { Some(&i) => i, None => { let i = self.hi_tab.len() as u32; self.hi_tab.push(hi); self.hi_map.insert(hi, i); i } }
        };
        self.intern(Node { op: Op::Const, w: w as u8, a: lo as u32, b: (lo >> 32) as u32, c })
    }
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const { Some((n.a as u128) | ((n.b as u128) << 32) | ((self.hi_tab[n.c as usize] as u128) << 64)) } else { None }
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        let id = match self.var_map.get(name) {
            Some(&i) => i,
            None => { let i = self.vars.len() as u32; self.vars.push((name.to_string(), w as u8)); self.var_map.insert(name.to_string(), i); i }
        };
        self.intern(Node { op: Op::Var, w: w as u8, a: id, b: 0, c: 0 })
    }
    fn compute_range(&self, n: &Node) -> (u64, u64) {
        let w = n.w as u32;
        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        if w > 64 { return (0, u64::MAX); }
        let r = |e: u32| self.rng[e as usize];
        match n.op {
            Op::Const => { let v = (n.a as u64) | ((n.b as u64) << 32); (v, v) }
            Op::Concat => {
                let lw = self.w(n.b);
                let (al, ah) = r(n.a); let (bl, bh) = r(n.b);
                if lw >= 64 { (0, m) } else { ((al << lw) | bl, (ah << lw) | bh) }
            }
            Op::Ite => { let (al, ah) = r(n.b); let (bl, bh) = r(n.c); (al.min(bl), ah.max(bh)) }
            Op::Add => {
                let (al, ah) = r(n.a); let (bl, bh) = r(n.b);
                match ah.checked_add(bh) { Some(h) if h <= m => (al + bl, h), _ => {
                    // both ends wrap the same way?
                    let l2 = al as u128 + bl as u128; let h2 = ah as u128 + bh as u128; let md = m as u128 + 1;
                    if l2 >= md && h2 - md <= m as u128 { ((l2 - md) as u64, (h2 - md) as u64) } else { (0, m) } } }
            }
            Op::Sub => { let (al, ah) = r(n.a); let (bl, bh) = r(n.b); if al >= bh { (al - bh, ah - bl) } else { (0, m) } }
            Op::Mul => { let (al, ah) = r(n.a); let (bl, bh) = r(n.b); match ah.checked_mul(bh) { Some(h) if h <= m => (al * bl, h), _ => (0, m) } }
            Op::UDiv => { let (al, ah) = r(n.a); let (bl, bh) = r(n.b); if bl > 0 { (al / bh, ah / bl) } else { (0, m) } }
            Op::URem => { let (_, ah) = r(n.a); let (bl, bh) = r(n.b); if bl > 0 { (0, ah.min(bh - 1)) } else { (0, m) } }
            Op::And => { let (_, ah) = r(n.a); let (_, bh) = r(n.b); (0, ah.min(bh)) }
            Op::Or => { let (al, ah) = r(n.a); let (bl, bh) = r(n.b); let mx = ah | bh; let k = 64 - mx.leading_zeros(); (al.max(bl), if k >= 64 { m } else { ((1u64 << k) - 1).min(m) }) }
            Op::Extract if n.b == 0 => { let (al, ah) = r(n.a); if self.w(n.a) <= 64 && ah <= m { (al, ah) } else { (0, m) } }
            Op::Extract => { let (al, ah) = r(n.a); let sw = self.w(n.a); if sw <= 64 && n.b + w == sw { (al >> n.b, ah >> n.b) } else { (0, m) } }
            Op::LShr => { let (_, ah) = r(n.a); (0, ah) }
            _ => (0, m),
        }
    }
    pub fn range(&self, e: E) -> (u64, u64) { self.rng[e as usize] }

    pub fn t(&mut self) -> E { self.konst(1, 1) }
    pub fn f(&mut self) -> E { self.konst(1, 0) }
    pub fn boolc(&mut self, b: bool) -> E { self.konst(1, b as u128) }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => { let v = !self.cval(a).unwrap(); self.konst(n.w as u32, v) }
            Op::Not => n.a,
            Op::Ult if n.w == 1 => self.ule(n.b, n.a),
            Op::Ule if n.w == 1 => self.ult(n.b, n.a),
            Op::Slt => self.sle(n.b, n.a),
            Op::Sle => self.slt(n.b, n.a),
            _ => self.intern(Node { op: Op::Not, w: n.w, a, b: 0, c: 0 }),
        }
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        let z = self.konst(w - aw, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cval(a) { return self.konst(w, sext(v, aw) as u128); }
        let n = self.n(a);
        if n.op == Op::Concat { if let Some(0) = self.cval(n.a) { return self.zext(a, w); } }
        if n.op == Op::SExt { return self.sext(n.a, w); }
        if n.op == Op::Ite && (self.cval(n.b).is_some() || self.cval(n.c).is_some()) {
            let x = self.sext(n.b, w); let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        if aw == 1 { let o = self.konst(w, u128::MAX); let z = self.konst(w, 0); return self.ite(a, o, z); }
        self.intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E { self.extract(a, 0, w) }
    /// bits [lo, lo+w) of a
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        let aw = n.w as u32;
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw { return a; }
        match n.op {
            Op::Const => { let v = self.cval(a).unwrap() >> lo; return self.konst(w, v); }
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo < iw { let x = self.extract(n.a, lo, iw - lo); return self.sext(x, w); }
                let s = self.extract(n.a, iw - 1, 1);
                return self.sext(s, w);
            }
            Op::Ite => {
                if self.leafy(n.b, 3) || self.leafy(n.c, 3) {
                    let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w);
                return match n.op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w);
                return match n.op { Op::Add => self.add(x, y), Op::Sub => self.sub(x, y), _ => self.mul(x, y) };
            }
            _ => {}
        }
        if aw <= 64 {
            let (_, h) = self.rng[a as usize];
            if lo < 64 && (h >> lo) == 0 { return self.konst(w, 0); }
        }
        self.intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 })
    }
    fn leafy(&self, e: E, d: u32) -> bool {
        let n = self.n(e);
        match n.op { Op::Const => true, Op::Ite if d > 0 => self.leafy(n.b, d - 1) && self.leafy(n.c, d - 1), Op::Concat => true, _ => false }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let hn = self.n(h); let ln = self.n(l);
        let w = hn.w as u32 + ln.w as u32;
        assert!(w <= 128, "concat too wide");
        if let (Some(a), Some(b)) = (self.cval(h), self.cval(l)) { return self.konst(w, (a << ln.w) | b); }
        if hn.op == Op::Concat { let r = self.concat(hn.b, l); return self.concat(hn.a, r); }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && ln.b + ln.w as u32 == hn.b {
            return self.extract(hn.a, ln.b, w);
        }
        if ln.op == Op::Concat {
            // try to merge h with the head of l
            let x = self.n(ln.a);
            if let (Some(a), Some(b)) = (self.cval(h), self.cval(ln.a)) {
                let hw = hn.w as u32 + x.w as u32;
                let k = self.konst(hw, (a << x.w) | b);
                return self.concat(k, ln.b);
            }
            if hn.op == Op::Extract && x.op == Op::Extract && hn.a == x.a && x.b + x.w as u32 == hn.b {
                let m = self.extract(hn.a, x.b, hn.w as u32 + x.w as u32);
                return self.concat(m, ln.b);
            }
        }
        // whole-value adjacency: concat(extract(x, k, ..top), x[0..k]) handled above; x itself as low part of wider? no
        self.intern(Node { op: Op::Concat, w: w as u8, a: h, b: l, c: 0 })
    }
    fn segs(&self, e: E, out: &mut Vec<E>) {
        // high to low
        let n = self.n(e);
        if n.op == Op::Concat { self.segs(n.a, out); self.segs(n.b, out); } else { out.push(e) }
    }
    fn fit(&self, e: E) -> u32 { let (_, h) = self.rng[e as usize]; 64 - h.leading_zeros() }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b), Op::Sub => self.sub(a, b), Op::Mul => self.mul(a, b),
            Op::And => self.and(a, b), Op::Or => self.or(a, b), Op::Xor => self.xor(a, b),
            Op::Shl | Op::LShr | Op::AShr => self.shift(op, a, b),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.div(op, a, b),
            Op::Eq => self.eq(a, b), Op::Ult => self.ult(a, b), Op::Ule => self.ule(a, b),
            Op::Slt => self.slt(a, b), Op::Sle => self.sle(a, b),
            _ => { let w = self.fpw(op, a); self.raw2(op, w, a, b) }
        }
    }
    fn fpw(&self, op: Op, a: E) -> u32 { match op { Op::FEq | Op::FLt | Op::FLe | Op::FUno => 1, _ => self.w(a) } }
    fn raw2(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let v = eval2(op, self.w(a), x, y);
            return self.konst(w, v);
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }
    /// unary fp / conversion ops; `w` is the result width
    pub fn fun(&mut self, op: Op, w: u32, a: E) -> E {
        if let Some(x) = self.cval(a) { let v = eval_f1(op, self.w(a), w, x); return self.konst(w, v); }
        self.intern(Node { op, w: w as u8, a, b: 0, c: 0 })
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.konst(w, x.wrapping_add(y)); }
            if y == 0 { return a; }
            let n = self.n(a);
            if n.op == Op::Add { if let Some(z) = self.cval(n.b) { let k = self.konst(w, z.wrapping_add(y)); return self.add(n.a, k); } }
            if n.op == Op::Ite && self.leafy(n.b, 2) && self.leafy(n.c, 2) { let x = self.add(n.b, b); let z = self.add(n.c, b); return self.ite(n.a, x, z); }
            return self.intern(Node { op: Op::Add, w: w as u8, a, b, c: 0 });
        }
        let n = self.n(a);
        if n.op == Op::Add { if self.cval(n.b).is_some() { let s = self.add(n.a, b); return self.add(s, n.b); } }
        let m = self.n(b);
        if m.op == Op::Add { if self.cval(m.b).is_some() { let s = self.add(a, m.a); return self.add(s, m.b); } }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::Add, w: w as u8, a, b, c: 0 })
    }
    pub fn neg(&mut self, a: E) -> E { let z = self.konst(self.w(a), 0); self.sub(z, a) }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0); }
        if let Some(y) = self.cval(b) { let k = self.konst(w, y.wrapping_neg()); return self.add(a, k); }
        let n = self.n(a);
        // (x + c) - x
        if n.op == Op::Add && self.cval(n.b).is_some() {
            if n.a == b { return n.b; }
            let d = self.sub(n.a, b); return self.add(d, n.b);
        }
        let m = self.n(b);
        if m.op == Op::Add { if let Some(z) = self.cval(m.b) { let d = self.sub(a, m.a); let k = self.konst(w, z.wrapping_neg()); return self.add(d, k); } }
        if n.op == Op::Add { if n.a == b { return n.b } if n.b == b { return n.a } }
        self.intern(Node { op: Op::Sub, w: w as u8, a, b, c: 0 })
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.konst(w, x.wrapping_mul(y)); }
            if y == 0 { return b; }
            if y == 1 { return a; }
            if y.is_power_of_two() { let k = self.konst(w, y.trailing_zeros() as u128); return self.shift(Op::Shl, a, k); }
        }
        if w <= 64 {
            let need = (self.fit(a) + self.fit(b)).max(1);
            if need < w && need + 4 < w { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); let m = self.mul(x, y); return self.zext(m, w); }
        } else {
            // 128-bit multiply of zero-extended operands
            let (fa, fb) = (self.width_used(a), self.width_used(b));
            let need = fa + fb;
            if need < w { let nw = need.max(1); let x = self.extract(a, 0, nw); let y = self.extract(b, 0, nw); let m = self.mul(x, y); return self.zext(m, w); }
        }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::Mul, w: w as u8, a, b, c: 0 })
    }
    fn width_used(&self, e: E) -> u32 {
        let n = self.n(e);
        if n.w <= 64 { return self.fit(e).max(1); }
        if let Some(v) = self.cval(e) { return (128 - v.leading_zeros()).max(1); }
        if n.op == Op::Concat { if let Some(0) = self.cval(n.a) { return self.width_used(n.b); } }
        n.w as u32
    }
    fn div(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { let v = eval2(op, w, x, y); return self.konst(w, v); }
        let signed = matches!(op, Op::SDiv | Op::SRem);
        if signed {
            let half = if w <= 64 { 1u64 << (w - 1) } else { 0 };
            if w <= 64 && self.rng[a as usize].1 < half && self.rng[b as usize].1 < half {
                return self.div(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
            }
            return self.intern(Node { op, w: w as u8, a, b, c: 0 });
        }
        if let Some(y) = self.cval(b) {
            if y == 1 { return if op == Op::UDiv { a } else { self.konst(w, 0) }; }
            if y != 0 && y.is_power_of_two() {
                let k = y.trailing_zeros();
                return if op == Op::UDiv { let kk = self.konst(w, k as u128); self.shift(Op::LShr, a, kk) } else { let x = self.extract(a, 0, k); self.zext(x, w) };
            }
            if y != 0 && w <= 64 && (self.rng[a as usize].1 as u128) < y { return if op == Op::UDiv { self.konst(w, 0) } else { a }; }
        }
        let fa = self.width_used(a); let fb = self.width_used(b);
        let need = fa.max(fb).max(1);
        if need < w && self.rng_nonzero(b) {
            let x = self.extract(a, 0, need); let y = self.extract(b, 0, need);
            let d = self.div(op, x, y);
            return self.zext(d, w);
        }
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }
    fn rng_nonzero(&self, e: E) -> bool { if let Some(v) = self.cval(e) { v != 0 } else { self.w(e) <= 64 && self.rng[e as usize].0 > 0 } }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.konst(w, x & y); }
            if y == 0 { return b; }
            if y == mask(w) { return a; }
            // contiguous mask
            let lo = y.trailing_zeros();
            let run = (!(y >> lo)).trailing_zeros();
            if (y >> lo) == mask(run) {
                let x = self.extract(a, lo, run);
                let x = if lo > 0 { let z = self.konst(lo, 0); self.concat(x, z) } else { x };
                return self.zext(x, w);
            }
            let n = self.n(a);
            if n.op == Op::And { if let Some(z) = self.cval(n.b) { let k = self.konst(w, z & y); return self.and(n.a, k); } }
            if n.op == Op::Ite && self.leafy(n.b, 2) && self.leafy(n.c, 2) { let x = self.and(n.b, b); let z = self.and(n.c, b); return self.ite(n.a, x, z); }
            if n.op == Op::Concat {
                let lw = self.w(n.b);
                let kh = self.konst(w - lw, y >> lw); let kl = self.konst(lw, y);
                let h = self.and(n.a, kh); let l = self.and(n.b, kl);
                return self.concat(h, l);
            }
            return self.intern(Node { op: Op::And, w: w as u8, a, b, c: 0 });
        }
        if w == 1 { let na = self.not(a); if na == b { return self.f(); }
            let n = self.n(a); if n.op == Op::And && (n.a == b || n.b == b) { return a; }
            let m = self.n(b); if m.op == Op::And && (m.a == a || m.b == a) { return b; } }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat || nb.op == Op::Concat { if let Some(r) = self.bitwise_segs(Op::And, a, b) { return r; } }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::And, w: w as u8, a, b, c: 0 })
    }
    fn bitwise_segs(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let mut sa = vec![]; let mut sb = vec![];
        self.segs(a, &mut sa); self.segs(b, &mut sb);
        // only when each aligned piece simplifies (one side constant)
        let mut i = 0; let mut j = 0;
        let mut ra = self.w(sa[0]); let mut rb = self.w(sb[0]);
        let mut pieces: Vec<E> = vec![];
        while i < sa.len() && j < sb.len() {
            let k = ra.min(rb);
            let ca = self.cval(sa[i]).is_some(); let cb = self.cval(sb[j]).is_some();
            if !ca && !cb { return None; }
            let x = self.extract(sa[i], ra - k, k); let y = self.extract(sb[j], rb - k, k);
            let p = match op { Op::And => self.and(x, y), Op::Or => self.or(x, y), _ => self.xor(x, y) };
            pieces.push(p);
            ra -= k; rb -= k;
            if ra == 0 { i += 1; if i < sa.len() { ra = self.w(sa[i]); } }
            if rb == 0 { j += 1; if j < sb.len() { rb = self.w(sb[j]); } }
        }
        let mut r = *pieces.last().unwrap();
        for p in pieces.iter().rev().skip(1) { r = self.concat(*p, r); }
        Some(r)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return a; }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.konst(w, x | y); }
            if y == 0 { return a; }
            if y == mask(w) { return b; }
            let n = self.n(a);
            if n.op == Op::Ite && self.leafy(n.b, 2) && self.leafy(n.c, 2) { let x = self.or(n.b, b); let z = self.or(n.c, b); return self.ite(n.a, x, z); }
        }
        if w == 1 { let na = self.not(a); if na == b { return self.t(); }
            let n = self.n(a); if n.op == Op::Or && (n.a == b || n.b == b) { return a; }
            let m = self.n(b); if m.op == Op::Or && (m.a == a || m.b == a) { return b; } }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat || nb.op == Op::Concat { if let Some(r) = self.bitwise_segs(Op::Or, a, b) { return r; } }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::Or, w: w as u8, a, b, c: 0 })
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b { return self.konst(w, 0); }
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.konst(w, x ^ y); }
            if y == 0 { return a; }
            if y == mask(w) { return self.not(a); }
            let n = self.n(a);
            if n.op == Op::Xor { if let Some(z) = self.cval(n.b) { let k = self.konst(w, z ^ y); return self.xor(n.a, k); } }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat || nb.op == Op::Concat { if let Some(r) = self.bitwise_segs(Op::Xor, a, b) { return r; } }
        let (a, b) = if self.cval(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::Xor, w: w as u8, a, b, c: 0 })
    }
    fn shift(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cval(b) {
            if k == 0 { return a; }
            if k >= w as u128 {
                return if op == Op::AShr { let s = self.extract(a, w - 1, 1); self.sext(s, w) } else { self.konst(w, 0) };
            }
            let k = k as u32;
            return match op {
                Op::Shl => { let x = self.extract(a, 0, w - k); let z = self.konst(k, 0); self.concat(x, z) }
                Op::LShr => { let x = self.extract(a, k, w - k); self.zext(x, w) }
                _ => { let x = self.extract(a, k, w - k); self.sext(x, w) }
            };
        }
        if self.cval(a) == Some(0) { return a; }
        self.intern(Node { op, w: w as u8, a, b, c: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b { return self.t(); }
        let w = self.w(a);
        let (a, b) = if self.cval(a).is_some() { (b, a) } else { (a, b) };
        if w <= 64 {
            let (al, ah) = self.rng[a as usize]; let (bl, bh) = self.rng[b as usize];
            if ah < bl || bh < al { return self.f(); }
        }
        if let Some(y) = self.cval(b) {
            if let Some(x) = self.cval(a) { return self.boolc(x == y); }
            if w == 1 { return if y == 1 { a } else { self.not(a) }; }
            let n = self.n(a);
            match n.op {
                Op::Add => if let Some(z) = self.cval(n.b) { let k = self.konst(w, y.wrapping_sub(z)); return self.eq(n.a, k); },
                Op::Xor => if let Some(z) = self.cval(n.b) { let k = self.konst(w, y ^ z); return self.eq(n.a, k); },
                Op::Not => { let k = self.konst(w, !y); return self.eq(n.a, k); }
                Op::Sub if y == 0 => return self.eq(n.a, n.b),
                Op::Concat => {
                    let lw = self.w(n.b);
                    let kh = self.konst(w - lw, y >> lw); let kl = self.konst(lw, y);
                    let h = self.eq(n.a, kh);
                    if self.cval(h) == Some(0) { return h; }
                    let l = self.eq(n.b, kl);
                    return self.and(h, l);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let back = sext(y & mask(iw), iw) as u128 & mask(w);
                    if back != y { return self.f(); }
                    let k = self.konst(iw, y); return self.eq(n.a, k);
                }
                Op::Ite => {
                    let x = self.eq(n.b, b); let z = self.eq(n.c, b);
                    if self.cval(x).is_some() || self.cval(z).is_some() { return self.ite(n.a, x, z); }
                }
                _ => {}
            }
            return self.intern(Node { op: Op::Eq, w: 1, a, b, c: 0 });
        }
        if w == 1 { // xnor
            let na = self.not(a); if na == b { return self.f(); }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.eq(na.a, nb.a); if self.cval(h) == Some(0) { return h; }
            let l = self.eq(na.b, nb.b); return self.and(h, l);
        }
        if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b { return self.eq(na.a, nb.a); }
        if na.op == Op::Add && na.a == b && self.cval(na.b).map_or(false, |v| v != 0) { return self.f(); }
        if nb.op == Op::Add && nb.a == a && self.cval(nb.b).map_or(false, |v| v != 0) { return self.f(); }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.intern(Node { op: Op::Eq, w: 1, a, b, c: 0 })
    }
    pub fn ne(&mut self, a: E, b: E) -> E { let e = self.eq(a, b); self.not(e) }
    fn cmp_narrow(&mut self, a: E, b: E) -> Option<(E, E)> {
        let w = self.w(a);
        let need = self.width_used(a).max(self.width_used(b)).max(1);
        if need < w { let x = self.extract(a, 0, need); let y = self.extract(b, 0, need); Some((x, y)) } else { None }
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b { return self.f(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.boolc(x < y); }
        if w <= 64 {
            let (al, ah) = self.rng[a as usize]; let (bl, bh) = self.rng[b as usize];
            if ah < bl { return self.t(); }
            if al >= bh { return self.f(); }
            if bh == bl && bl == al + 1 { let k = self.konst(w, al as u128); return self.eq(a, k); }
            if al == ah && al + 1 == bh { let k = self.konst(w, bh as u128); return self.eq(b, k); }
        }
        if let Some((x, y)) = self.cmp_narrow(a, b) { return self.ult(x, y); }
        if let Some(1) = self.cval(b) { let z = self.konst(w, 0); return self.eq(a, z); }
        if let Some(0) = self.cval(a) { let z = self.konst(w, 0); return self.ne(b, z); }
        if w == 1 { let na = self.not(a); return self.and(na, b); }
        let n = self.n(a);
        if self.cval(b).is_some() && n.op == Op::Ite && self.leafy1(n) { let x = self.ult(n.b, b); let y = self.ult(n.c, b); return self.ite(n.a, x, y); }
        let n = self.n(b);
        if self.cval(a).is_some() && n.op == Op::Ite && self.leafy1(n) { let x = self.ult(a, n.b); let y = self.ult(a, n.c); return self.ite(n.a, x, y); }
        self.intern(Node { op: Op::Ult, w: 1, a, b, c: 0 })
    }
    fn leafy1(&self, n: Node) -> bool { self.cval(n.b).is_some() || self.cval(n.c).is_some() }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b { return self.t(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.boolc(x <= y); }
        if w <= 64 {
            let (al, ah) = self.rng[a as usize]; let (bl, bh) = self.rng[b as usize];
            if ah <= bl { return self.t(); }
            if al > bh { return self.f(); }
        }
        // a <= c  ==  a < c+1 (c not max); c <= b == c-1 < b
        if let Some(y) = self.cval(b) { if y < mask(w) { let k = self.konst(w, y + 1); return self.ult(a, k); } }
        if let Some(x) = self.cval(a) { if x > 0 { let k = self.konst(w, x - 1); return self.ult(k, b); } }
        if let Some((x, y)) = self.cmp_narrow(a, b) { return self.ule(x, y); }
        if w == 1 { let na = self.not(a); return self.or(na, b); }
        self.intern(Node { op: Op::Ule, w: 1, a, b, c: 0 })
    }
    fn nonneg(&self, e: E) -> bool {
        let w = self.w(e);
        if w <= 64 { self.rng[e as usize].1 < (1u64 << (w - 1)) } else { self.width_used(e) < w }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b { return self.f(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.boolc(sext(x, w) < sext(y, w)); }
        if self.nonneg(a) && self.nonneg(b) { return self.ult(a, b); }
        if self.cval(b) == Some(0) { return self.extract(a, w - 1, 1); }
        if self.cval(a) == Some(mask(w)) { let s = self.extract(b, w - 1, 1); return self.not(s); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) { return self.slt(na.a, nb.a); }
        if na.op == Op::SExt { if let Some(y) = self.cval(b) { let iw = self.w(na.a); let s = sext(y, w);
            let (mn, mx) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
            if s > mx { return self.t(); } if s <= mn { return self.f(); } let k = self.konst(iw, y); return self.slt(na.a, k); } }
        if nb.op == Op::SExt { if let Some(x) = self.cval(a) { let iw = self.w(nb.a); let s = sext(x, w);
            let (mn, mx) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
            if s < mn { return self.t(); } if s >= mx { return self.f(); } let k = self.konst(iw, x); return self.slt(k, nb.a); } }
        if na.op == Op::Ite && self.cval(b).is_some() && self.leafy1(na) { let x = self.slt(na.b, b); let y = self.slt(na.c, b); return self.ite(na.a, x, y); }
        self.intern(Node { op: Op::Slt, w: 1, a, b, c: 0 })
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        if a == b { return self.t(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) { return self.boolc(sext(x, w) <= sext(y, w)); }
        if self.nonneg(a) && self.nonneg(b) { return self.ule(a, b); }
        if let Some(y) = self.cval(b) { if y != mask(w) >> 1 { let k = self.konst(w, y.wrapping_add(1)); return self.slt(a, k); } }
        if let Some(x) = self.cval(a) { if x != 1u128 << (w - 1) { let k = self.konst(w, x.wrapping_sub(1)); return self.slt(k, b); } }
        self.intern(Node { op: Op::Sle, w: 1, a, b, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let cn = self.n(c);
        if cn.op == Op::Not { return self.ite(cn.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let nc = self.not(c); return self.and(nc, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.or(nc, a); }
                _ => {}
            }
        }
        let na = self.n(a); if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.n(b); if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if nb.op == Op::Ite && nb.b == a { let cc = self.or(c, nb.a); return self.ite(cc, a, nb.c); }
        // common zero-extension
        if na.op == Op::Concat && self.cval(na.a) == Some(0) {
            let lw = self.w(na.b);
            if nb.op == Op::Concat && self.cval(nb.a) == Some(0) && self.w(nb.b) == lw { let x = self.ite(c, na.b, nb.b); return self.zext(x, w); }
            if let Some(v) = self.cval(b) { if v <= mask(lw) { let k = self.konst(lw, v); let x = self.ite(c, na.b, k); return self.zext(x, w); } }
        } else if nb.op == Op::Concat && self.cval(nb.a) == Some(0) {
            let lw = self.w(nb.b);
            if let Some(v) = self.cval(a) { if v <= mask(lw) { let k = self.konst(lw, v); let x = self.ite(c, k, nb.b); return self.zext(x, w); } }
        }
        self.intern(Node { op: Op::Ite, w: w as u8, a: c, b: a, c: b })
    }
    /// number of known-zero low bits
    pub fn tz(&self, e: E) -> u32 { self.tzd(e, 5) }
    fn tzd(&self, e: E, d: u32) -> u32 {
        let n = self.n(e);
        if let Some(v) = self.cval(e) { return if v == 0 { n.w as u32 } else { v.trailing_zeros() }; }
        if d == 0 { return 0; }
        match n.op {
            Op::Concat => { let l = self.tzd(n.b, d - 1); if l == self.w(n.b) { l + self.tzd(n.a, d - 1) } else { l } }
            Op::Add | Op::Sub => self.tzd(n.a, d - 1).min(self.tzd(n.b, d - 1)),
            Op::Mul => (self.tzd(n.a, d - 1) + self.tzd(n.b, d - 1)).min(n.w as u32),
            Op::Ite => self.tzd(n.b, d - 1).min(self.tzd(n.c, d - 1)),
            _ => 0,
        }
    }

    // ---------- evaluation ----------
    pub fn eval(&mut self, e: E, m: &Model) -> u128 {
        if self.epoch_model != m.id { self.epoch += 1; self.epoch_model = m.id; }
        if self.memo.len() < self.nodes.len() { self.memo.resize(self.nodes.len() + 1024, 0); self.stamp.resize(self.nodes.len() + 1024, 0); }
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &Model) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.cval(e).unwrap(),
            Op::Var => return (m.get(n.a) as u128) & mask(n.w as u32),
            _ => {}
        }
        if self.stamp[e as usize] == self.epoch { return self.memo[e as usize]; }
        let w = n.w as u32;
        let v = match n.op {
            Op::Not => !self.ev(n.a, m) & mask(w),
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::Concat => { let lw = self.w(n.b); let h = self.ev(n.a, m); let l = self.ev(n.b, m); (h << lw) | l }
            Op::Extract => (self.ev(n.a, m) >> n.b) & mask(w),
            Op::SExt => { let iw = self.w(n.a); (sext(self.ev(n.a, m), iw) as u128) & mask(w) }
            Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FCvt => {
                let iw = self.w(n.a); let x = self.ev(n.a, m); eval_f1(n.op, iw, w, x)
            }
            _ => { let x = self.ev(n.a, m); let y = self.ev(n.b, m); eval2(n.op, self.w(n.a), x, y) }
        };
        self.memo[e as usize] = v;
        self.stamp[e as usize] = self.epoch;
        v
    }

    // ---------- formulas over one byte ----------
    /// Value of `e` for each of the 256 values of the one byte it depends on.
    fn table(&mut self, e: E, var: u32) -> Rc<Vec<u128>> {
        if let Some(t) = self.tv.get(&e) { return t.clone(); }
        let n = self.nodes[e as usize];
        let w = n.w as u32;
        let r: Vec<u128> = match n.op {
            Op::Const => { let v = self.cval(e).unwrap(); vec![v; 256] }
            Op::Var => { debug_assert!(n.a == var); (0..256u128).map(|v| v & mask(w)).collect() }
            Op::Not => { let a = self.table(n.a, var); a.iter().map(|x| !x & mask(w)).collect() }
            Op::Ite => { let c = self.table(n.a, var); let a = self.table(n.b, var); let b = self.table(n.c, var); (0..256).map(|i| if c[i] == 1 { a[i] } else { b[i] }).collect() }
            Op::Concat => { let lw = self.w(n.b); let h = self.table(n.a, var); let l = self.table(n.b, var); (0..256).map(|i| (h[i] << lw) | l[i]).collect() }
            Op::Extract => { let a = self.table(n.a, var); a.iter().map(|x| (x >> n.b) & mask(w)).collect() }
            Op::SExt => { let iw = self.w(n.a); let a = self.table(n.a, var); a.iter().map(|x| (sext(*x, iw) as u128) & mask(w)).collect() }
            Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FCvt => { let iw = self.w(n.a); let a = self.table(n.a, var); a.iter().map(|x| eval_f1(n.op, iw, w, *x)).collect() }
            _ => { let iw = self.w(n.a); let a = self.table(n.a, var); let b = self.table(n.b, var); (0..256).map(|i| eval2(n.op, iw, a[i], b[i])).collect() }
        };
        let r = Rc::new(r);
        // (emptied between formulas, not within one: shared parts must be computed once)
        if self.tv.len() > 60_000 { self.tv.clear(); }
        self.tv.insert(e, r.clone());
        r
    }
    /// The set of values of its one byte for which the condition `e` holds; None when it depends on more.
    pub fn byteset(&mut self, e: E) -> Option<(u32, [u64; 4])> {
        if let Some(r) = self.bs.get(&e) { return *r; }
        let vs = self.varset(e);
        let r = if self.vsets[vs as usize].iter().map(|x| x.count_ones()).sum::<u32>() != 1 { None } else {
            let v = self.vset_vars(vs)[0];
            if self.vars[v as usize].1 != 8 { None } else {
                if self.tv.len() > 3000 { self.tv.clear(); }
                let t = self.table(e, v);
                let mut b = [0u64; 4];
                for i in 0..256 { if t[i] == 1 { b[i / 64] |= 1 << (i % 64); } }
                Some((v, b))
            }
        };
        self.bs.insert(e, r);
        r
    }
    fn ranges(&mut self, v: u32, b: &[u64; 4]) -> E {
        let inb = |i: usize| b[i / 64] >> (i % 64) & 1 == 1;
        if (0..256).all(|i| inb(i)) { return self.t(); }
        let (name, w) = (self.vars[v as usize].0.clone(), self.vars[v as usize].1);
        let x = self.var(&name, w as u32);
        let mut r = self.f();
        let mut i = 0;
        while i < 256 {
            if !inb(i) { i += 1; continue; }
            let mut j = i;
            while j + 1 < 256 && inb(j + 1) { j += 1; }
            let (lo, hi) = (self.konst(8, i as u128), self.konst(8, j as u128));
            let c = if i == j { self.eq(x, lo) } else if i == 0 { self.ule(x, hi) } else if j == 255 { self.ule(lo, x) } else { let p = self.ule(lo, x); let q = self.ule(x, hi); self.and(p, q) };
            r = self.or(r, c);
            i = j + 1;
        }
        r
    }
    /// Does the formula compute in floating point?
    pub fn has_fp(&mut self, e: E) -> bool {
        if let Some(&b) = self.fpn.get(&e) { return b; }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const | Op::Var | Op::None => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FUno | Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FCvt => true,
            Op::Extract | Op::SExt | Op::Not => self.has_fp(n.a),
            Op::Ite => self.has_fp(n.a) || self.has_fp(n.b) || self.has_fp(n.c),
            _ => self.has_fp(n.a) || self.has_fp(n.b),
        };
        self.fpn.insert(e, r);
        r
    }
    /// An equivalent condition in which every part that depends on a single byte is a union of ranges of that byte.
    pub fn canon(&mut self, e: E) -> E {
        let n = self.nodes[e as usize];
        if n.w != 1 || matches!(n.op, Op::Const | Op::Var) { return e; }
        if let Some(&r) = self.cn.get(&e) { return r; }
        let r = match self.byteset(e) {
            Some((v, b)) => {
                let k = (0..256).filter(|i| ((b[i / 64] >> (i % 64)) & 1) != (if *i == 0 { 0 } else { (b[(i - 1) / 64] >> ((i - 1) % 64)) & 1 })).count();
                let inside = b[0] & 1 == 1 && b[3] >> 63 == 1;
                let lim = if self.has_fp(e) { 256 } else { 24 };
                if k > lim { e } else if inside { let c = [!b[0], !b[1], !b[2], !b[3]]; let x = self.ranges(v, &c); self.not(x) } else { self.ranges(v, &b) }
            }
            None => match n.op {
                Op::Not => { let a = self.canon(n.a); self.not(a) }
                Op::And => { let a = self.canon(n.a); let b = self.canon(n.b); self.and(a, b) }
                Op::Or => { let a = self.canon(n.a); let b = self.canon(n.b); self.or(a, b) }
                Op::Xor => { let a = self.canon(n.a); let b = self.canon(n.b); self.xor(a, b) }
                Op::Ite => { let a = self.canon(n.a); let b = self.canon(n.b); let c = self.canon(n.c); self.ite(a, b, c) }
                Op::Eq if self.w(n.a) == 1 => { let a = self.canon(n.a); let b = self.canon(n.b); self.eq(a, b) }
                _ => e,
            },
        };
        self.cn.insert(e, r);
        self.cn.insert(r, r);
        r
    }

    // ---------- variable sets ----------
    pub fn varset(&mut self, e: E) -> u32 {
        if self.vs[e as usize] != u32::MAX { return self.vs[e as usize]; }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const | Op::None => 0,
            Op::Var => { let mut v = vec![0u64; n.a as usize / 64 + 1]; v[n.a as usize / 64] |= 1 << (n.a % 64); self.vset_intern(v) }
            Op::Extract | Op::SExt | Op::Not | Op::FSqrt | Op::FRoundNE | Op::FRoundZ | Op::FRoundUp | Op::FRoundDn | Op::FRoundNA | Op::UiToF | Op::SiToF | Op::FToUi | Op::FToSi | Op::FCvt => self.varset(n.a),
            Op::Ite => { let x = self.varset(n.a); let y = self.varset(n.b); let z = self.varset(n.c); let xy = self.vset_union(x, y); self.vset_union(xy, z) }
            _ => { let x = self.varset(n.a); let y = self.varset(n.b); self.vset_union(x, y) }
        };
        self.vs[e as usize] = r;
        r
    }
    fn vset_intern(&mut self, v: Vec<u64>) -> u32 {
        if let Some(&i) = self.vset_map.get(&v) { return i; }
        let i = self.vsets.len() as u32;
        self.vsets.push(v.clone()); self.vset_map.insert(v, i);
        i
    }
    pub fn vset_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let (x, y) = (&self.vsets[a as usize], &self.vsets[b as usize]);
        let n = x.len().max(y.len());
        let v: Vec<u64> = (0..n).map(|i| x.get(i).copied().unwrap_or(0) | y.get(i).copied().unwrap_or(0)).collect();
        self.vset_intern(v)
    }
    pub fn vset_intersects(&self, a: u32, b: u32) -> bool {
        let (x, y) = (&self.vsets[a as usize], &self.vsets[b as usize]);
        x.iter().zip(y.iter()).any(|(p, q)| p & q != 0)
    }
    pub fn vset_vars(&self, a: u32) -> Vec<u32> {
        let mut r = vec![];
        for (i, w) in self.vsets[a as usize].iter().enumerate() { for b in 0..64 { if w >> b & 1 == 1 { r.push(i as u32 * 64 + b) } } }
        r
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if let Some(v) = self.cval(e) { return format!("{:#x}:{}", v, n.w); }
        if n.op == Op::Var { return self.vars[n.a as usize].0.clone(); }
        if d == 0 { return "..".into(); }
        match n.op {
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Not | Op::SExt => format!("{:?}({})", n.op, self.show(n.a, d - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ if n.b == 0 => format!("{:?}({})", n.op, self.show(n.a, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

pub fn tof(w: u32, v: u128) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }
pub fn fromf(w: u32, f: f64) -> u128 { if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 } }

pub fn eval2(op: Op, w: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m, Op::Sub => x.wrapping_sub(y) & m, Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => if y == 0 { m } else { x / y }, Op::URem => if y == 0 { x } else { x % y },
        Op::SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m } }
        Op::SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
        Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
        Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
        Op::LShr => if y >= w as u128 { 0 } else { x >> y },
        Op::AShr => { let s = sext(x, w); let k = if y >= w as u128 { w - 1 } else { y as u32 }; ((s >> k) as u128) & m }
        Op::Eq => (x == y) as u128, Op::Ult => (x < y) as u128, Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128, Op::Sle => (sext(x, w) <= sext(y, w)) as u128,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
            if w == 32 { let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                (match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, Op::FDiv => a / b, _ => a % b }).to_bits() as u128 }
            else { let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                (match op { Op::FAdd => a + b, Op::FSub => a - b, Op::FMul => a * b, Op::FDiv => a / b, _ => a % b }).to_bits() as u128 }
        }
        Op::FEq => (tof(w, x) == tof(w, y)) as u128, Op::FLt => (tof(w, x) < tof(w, y)) as u128, Op::FLe => (tof(w, x) <= tof(w, y)) as u128,
        Op::FUno => (tof(w, x).is_nan() || tof(w, y).is_nan()) as u128,
        _ => panic!("eval2 {:?}", op),
    }
}
pub fn eval_f1(op: Op, iw: u32, w: u32, x: u128) -> u128 {
    match op {
        Op::FSqrt => if iw == 32 { f32::from_bits(x as u32).sqrt().to_bits() as u128 } else { fromf(w, tof(iw, x).sqrt()) },
        Op::FRoundNE => fromf(w, tof(iw, x).round_ties_even()),
        Op::FRoundZ => fromf(w, tof(iw, x).trunc()),
        Op::FRoundUp => fromf(w, tof(iw, x).ceil()),
        Op::FRoundDn => fromf(w, tof(iw, x).floor()),
        Op::FRoundNA => fromf(w, tof(iw, x).round()),
        Op::UiToF => if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 },
        Op::SiToF => { let s = sext(x, iw); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        Op::FToUi => { let f = tof(iw, x); let mx = mask(w); let v = f as u128; if v > mx { mx } else { v } }
        Op::FToSi => { let f = tof(iw, x); let v = f as i128; let mx = (1i128 << (w - 1)) - 1; let mn = -(1i128 << (w - 1)); (v.clamp(mn, mx) as u128) & mask(w) }
        Op::FCvt => if iw == 32 { (f32::from_bits(x as u32) as f64).to_bits() as u128 } else { (f64::from_bits(x as u64) as f32).to_bits() as u128 },
        _ => panic!("eval_f1 {:?}", op),
    }
}

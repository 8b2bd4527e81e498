//! The symbolic machine: states, memory, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<E>>, pub ro: bool, pub alive: bool }

#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub ip: u32, pub blk: u32, pub regs: Vec<V>, pub ret: u32, pub has_ret: bool, pub after: u32 }

const CH: usize = 128;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub stack: Vec<Option<Rc<Obj>>>,
    pub heap: Vec<Rc<Chunk>>,
    pub next_heap: u64,
    pub big: Vec<(u64, u64)>, // (first window, nwin) of multi-window heap objects
    pub glob: Rc<BTreeMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub sym_events: Rc<Vec<(String, Vec<E>)>>,
    pub sym_count: Rc<BTreeMap<String, u32>>,
    pub covers: Rc<BTreeSet<String>>,
    pub obs: Rc<Vec<V>>,
    pub clock: [(V, V); 2],
    pub steps: u64,
    pub rand: u64,
    pub errno: u64,
    pub depth: u32,
    pub allow_panic: bool,
    /// The call that lets another thread in (frames below it, the call), while that thread runs.
    pub nested: Option<(usize, &'static CallI)>,
    /// where the second thread has its own copy of each thread-local variable
    pub tls2: Rc<BTreeMap<u64, u64>>,
    /// Whether atomic operations are preemption points.
    pub armed: bool,
    /// The futex address the frozen intruder waits at.
    pub frozen: u64,
}

pub enum Out { Done, Killed, Abandoned, Violation(String, String), Error(String) }
/// `Frozen`: the intruding thread blocks; it stays as it is and the thread it interrupted goes on.
pub enum Step { Next, Again, End(Out), Frozen }

#[derive(Clone, Debug)]
pub struct Viol { pub label: String, pub detail: String, pub inputs: Vec<(String, Vec<u8>)> }

pub struct Ex {
    pub m: &'static Module,
    pub ar: Arena,
    pub so: Solver,
    pub ginit: HashMap<u32, Rc<Obj>>,
    pub pending: Vec<State>,
    pub viols: Vec<Viol>,
    pub viol_labels: HashMap<String, u32>,
    pub tier: u64,
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub instrs: u64,
    pub errors: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub called: Vec<bool>,
    pub checks: BTreeMap<String, u64>,
    pub checks_sym: u64,
    pub step_limit: u64,
    pub deadline: Option<std::time::Instant>,
    pub stop: Option<&'static std::sync::atomic::AtomicU64>,
    point: Option<u32>,
    pub abandoned: usize,
    pub builtins: HashMap<u32, Builtin>,
    pub overrides: Vec<(String, Builtin)>,
    pub samples: Vec<(Vec<(String, Vec<u8>)>, Vec<u64>)>,
    pub sample_max: usize,
    pub const_hash: bool,
    pub verbose: bool,
    pub forkprof: HashMap<(u32, u32), u64>,
    pub funprof: Vec<u64>,
    pub max_pc: usize,
    pub trace: bool,
}
pub type Builtin = fn(&mut Ex, &mut State, &CallI, Vec<V>) -> Result<Option<V>, Step>;

pub fn err<T>(s: impl Into<String>) -> Result<T, Step> { Err(Step::End(Out::Error(s.into()))) }

impl Ex {
    pub fn new(m: &'static Module, timeout_ms: u32) -> Ex {
        let mut ex = Ex { m, ar: Arena::new(), so: Solver::new(timeout_ms), ginit: HashMap::new(), pending: vec![], viols: vec![], viol_labels: HashMap::new(), tier: 0, paths: 0, killed: 0, forks: 0, instrs: 0, errors: vec![], covers: BTreeMap::new(), called: vec![false; m.funcs.len()], checks: BTreeMap::new(), checks_sym: 0, step_limit: 300_000_000, deadline: None, stop: None, point: m.funcs.iter().position(|f| f.name == "__vp_point").map(|i| i as u32), abandoned: 0, builtins: HashMap::new(), overrides: vec![], samples: vec![], sample_max: 0, const_hash: true, verbose: false, forkprof: HashMap::new(), funprof: vec![0; m.funcs.len()], max_pc: 0, trace: std::env::var("LLSYM_TRACE").is_ok() };
        crate::builtins::register(&mut ex);
        ex
    }
    pub fn initial(&mut self, fid: u32) -> State {
        let f = self.m.func(fid).expect("entry has no body");
        let mut st = State { frames: vec![], stack: vec![], heap: vec![], next_heap: 1, big: vec![], glob: Rc::new(BTreeMap::new()), pc: vec![], model: Rc::new(Model { id: 0, vals: vec![] }), sym_events: Rc::new(vec![]), sym_count: Default::default(), covers: Default::default(), obs: Default::default(), clock: [(V::I(1_700_000_000), V::I(0)), (V::I(1_000_000), V::I(0))], steps: 0, rand: 0x9e3779b97f4a7c15, errno: 0, depth: 0, allow_panic: false, nested: None, tls2: Default::default(), armed: false, frozen: 0 };
        self.push_frame(&mut st, f, vec![], 0, false, u32::MAX);
        st
    }
    pub fn push_frame(&mut self, st: &mut State, f: &'static Func, args: Vec<V>, ret: u32, has_ret: bool, after: u32) {
        self.called[f.id as usize] = true;
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (r, a) in f.args.iter().zip(args) { regs[*r as usize] = a; }
        let o = if f.frame_size > 0 { Some(Rc::new(Obj { data: vec![0; f.frame_size as usize], sym: None, ro: false, alive: true })) } else { None };
        st.stack.push(o);
        st.frames.push(Frame { f, ip: f.blocks[0].start, blk: 0, regs, ret, has_ret, after });
    }

    // ---------- values ----------
    pub fn e(&mut self, v: &V, w: u32) -> E { match v { V::I(x) => self.ar.konst(w, *x as u128), V::W(x) => self.ar.konst(w, **x), V::S(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } V::A(_) => panic!("aggregate as scalar") } }
    pub fn v(&self, e: E) -> V { match self.ar.cval(e) { Some(c) => V::konst(self.ar.w(e), c), None => V::S(e) } }
    #[inline]
    pub fn get(&self, st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::C(v) => v.clone() } }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) { st.frames.last_mut().unwrap().regs[d as usize] = v; }

    // ---------- memory ----------
    fn find(&mut self, st: &State, addr: u64) -> Option<(u64, u64, bool)> {
        // -> (base, size, alive)
        let id = addr >> WIN;
        if id >= HEAP_ID {
            if id - HEAP_ID > st.next_heap { return None; }
            let mut h = id - HEAP_ID;
            for &(f, n) in &st.big { if h >= f && h < f + n { h = f; } }
            let o = st.heap.get(h as usize / CH)?.get(h as usize % CH)?.as_ref()?;
            Some(((h + HEAP_ID) << WIN, o.data.len() as u64, o.alive))
        } else if id >= STACK_ID {
            let d = (id - STACK_ID) as usize;
            let o = st.stack.get(d)?.as_ref()?;
            Some(((id) << WIN, o.data.len() as u64, true))
        } else {
            let g = *self.m.gid_by_window.get(id as usize)?;
            if g == u32::MAX { return None; }
            let gd = &self.m.globals[g as usize];
            Some((gd.addr, gd.size, true))
        }
    }
    fn obj<'a>(&'a mut self, st: &'a State, base: u64) -> &'a Rc<Obj> {
        let id = base >> WIN;
        if id >= HEAP_ID { let h = (id - HEAP_ID) as usize; st.heap[h / CH][h % CH].as_ref().unwrap() }
        else if id >= STACK_ID { st.stack[(id - STACK_ID) as usize].as_ref().unwrap() }
        else {
            let g = self.m.gid_by_window[id as usize];
            if let Some(o) = st.glob.get(&g) { return o; }
            if !self.ginit.contains_key(&g) {
                let b = self.m.global_bytes(g);
                let ro = self.m.globals[g as usize].ro;
                self.ginit.insert(g, Rc::new(Obj { data: b, sym: None, ro, alive: true }));
            }
            &self.ginit[&g]
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, base: u64) -> &'a mut Obj {
        let id = base >> WIN;
        if id >= HEAP_ID { let h = (id - HEAP_ID) as usize; Rc::make_mut(Rc::make_mut(&mut st.heap[h / CH])[h % CH].as_mut().unwrap()) }
        else if id >= STACK_ID { Rc::make_mut(st.stack[(id - STACK_ID) as usize].as_mut().unwrap()) }
        else {
            let g = self.m.gid_by_window[id as usize];
            if !st.glob.contains_key(&g) { let o = self.obj(st, base).clone(); Rc::make_mut(&mut st.glob).insert(g, o); }
            Rc::make_mut(Rc::make_mut(&mut st.glob).get_mut(&g).unwrap())
        }
    }
    pub fn other_tls(&mut self, st: &mut State, p: u64) -> u64 {
        if let Some(&q) = st.tls2.get(&p) { return q; }
        let Some(&g) = self.m.gid_by_window.get((p >> WIN) as usize) else { return p };
        if g == u32::MAX || self.m.globals[g as usize].addr != p { return p; }
        let b = self.m.global_bytes(g);
        let q = self.alloc(st, b.len() as u64);
        self.obj_mut(st, q).data = b;
        Rc::make_mut(&mut st.tls2).insert(p, q);
        q
    }
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        if size > (1 << 28) { return 0; }
        let h = st.next_heap;
        let nw = 1 + (size >> WIN);
        st.next_heap += nw;
        if nw > 1 { st.big.push((h, nw)); }
        while st.heap.len() * CH <= h as usize { st.heap.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut st.heap[h as usize / CH])[h as usize % CH] = Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, alive: true }));
        (h + HEAP_ID) << WIN
    }
    pub fn free(&mut self, st: &mut State, addr: u64) -> Result<(), Step> {
        if addr == 0 { return Ok(()); }
        match self.find(st, addr) {
            Some((b, _, true)) if b == addr && (addr >> WIN) >= HEAP_ID => {
                let h = ((addr >> WIN) - HEAP_ID) as usize;
                Rc::make_mut(&mut st.heap[h / CH])[h % CH] = Some(Rc::new(Obj { data: vec![], sym: None, ro: false, alive: false }));
                Ok(())
            }
            _ => self.memerr(st, format!("invalid free {addr:#x}")),
        }
    }
    pub fn obj_size(&mut self, st: &State, addr: u64) -> u64 { self.find(st, addr).map(|x| x.1).unwrap_or(0) }
    pub fn memerr<T>(&mut self, st: &State, s: String) -> Result<T, Step> {
        let bt = self.backtrace(st);
        Err(Step::End(Out::Violation("memory-safety".into(), format!("{s} in {bt}"))))
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev().take(18) { let d = &self.m.funcs[f.f.id as usize]; v.push(if d.dem.is_empty() { d.name.to_string() } else { d.dem.to_string() }); }
        v.join(" <- ")
    }
    /// byte range check for a concrete address
    pub fn range(&mut self, st: &State, addr: u64, n: u64, wr: bool) -> Result<(u64, u64), Step> {
        match self.find(st, addr) {
            Some((b, sz, alive)) if alive && addr - b + n <= sz => {
                if wr && (b >> WIN) < STACK_ID { let g = self.m.gid_by_window[(b >> WIN) as usize]; if self.m.globals[g as usize].ro { return self.memerr(st, format!("write to constant {}", self.m.globals[g as usize].name)); } }
                Ok((b, addr - b))
            }
            Some((b, sz, alive)) => self.memerr(st, format!("{} of {n} bytes at offset {} of object of size {sz} alive={alive}", if wr { "write" } else { "read" }, addr - b)),
            None => self.memerr(st, format!("{} of {n} bytes at wild address {addr:#x}", if wr { "write" } else { "read" })),
        }
    }
    pub fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> Result<Vec<V>, Step> {
        if n == 0 { return Ok(vec![]); }
        let (b, o) = self.range(st, addr, n, false)?;
        let ob = self.obj(st, b);
        let (o, n) = (o as usize, n as usize);
        Ok((o..o + n).map(|i| match &ob.sym { Some(s) if s[i] != 0 => V::S(s[i]), _ => V::I(ob.data[i] as u64) }).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, addr: u64, bytes: &[V]) -> Result<(), Step> {
        if bytes.is_empty() { return Ok(()); }
        let (b, o) = self.range(st, addr, bytes.len() as u64, true)?;
        let ob = self.obj_mut(st, b);
        for (k, v) in bytes.iter().enumerate() { put_byte(ob, o as usize + k, v); }
        Ok(())
    }
    pub fn read_conc(&mut self, st: &State, addr: u64, n: u64) -> Result<Vec<u8>, Step> {
        let v = self.read_bytes(st, addr, n)?;
        let mut out = vec![];
        for x in v { match x { V::I(b) => out.push(b as u8), V::S(e) => { let m = st.model.clone(); out.push(self.ar.eval(e, &m) as u8) } _ => {} } }
        Ok(out)
    }
    fn load_scalar(&mut self, st: &State, addr: u64, bits: u32) -> Result<V, Step> {
        let n = ((bits + 7) / 8) as u64;
        let (b, o) = self.range(st, addr, n, false)?;
        let o = o as usize; let nn = n as usize;
        let ob = self.obj(st, b);
        if let Some(s) = &ob.sym {
            if s[o..o + nn].iter().any(|&e| e != 0) {
                let es: Vec<E> = s[o..o + nn].to_vec();
                let ds: Vec<u8> = ob.data[o..o + nn].to_vec();
                let mut r: Option<E> = None;
                for i in 0..nn {
                    let x = if es[i] != 0 { es[i] } else { self.ar.konst(8, ds[i] as u128) };
                    r = Some(match r { None => x, Some(l) => self.ar.concat(x, l) });
                }
                let mut e = r.unwrap();
                if bits < n as u32 * 8 { e = self.ar.extract(e, 0, bits); }
                return Ok(self.v(e));
            }
        }
        if nn <= 8 {
            let mut buf = [0u8; 8];
            buf[..nn].copy_from_slice(&ob.data[o..o + nn]);
            let mut x = u64::from_le_bytes(buf);
            if bits < 64 { x &= (1u64 << bits) - 1; }
            Ok(V::I(x))
        } else {
            let mut buf = [0u8; 16];
            buf[..nn].copy_from_slice(&ob.data[o..o + nn]);
            Ok(V::konst(bits, u128::from_le_bytes(buf)))
        }
    }
    pub fn load(&mut self, st: &State, addr: u64, t: &Ty) -> Result<V, Step> {
        match t {
            Ty::Int(w) => self.load_scalar(st, addr, *w),
            Ty::Ptr | Ty::F64 => self.load_scalar(st, addr, 64),
            Ty::F32 => self.load_scalar(st, addr, 32),
            Ty::Vec(n, et) if et.bits() < 8 => { let full = self.load_scalar(st, addr, *n * et.bits())?; Ok(self.int_to_vec(full, *n, et.bits())) }
            _ => { let mut v = Vec::with_capacity(t.nfields()); for i in 0..t.nfields() { let (o, ft) = t.field(i); v.push(self.load(st, addr + o, &ft)?); } Ok(V::A(Rc::new(v))) }
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &V) -> Result<(), Step> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F64 | Ty::F32 => {
                let bits = t.bits(); let n = ((bits + 7) / 8) as usize;
                let (b, o) = self.range(st, addr, n as u64, true)?;
                let o = o as usize;
                match v {
                    V::I(x) => { let ob = self.obj_mut(st, b); ob.data[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]); if let Some(s) = &mut ob.sym { for k in o..o + n { s[k] = 0; } } }
                    V::W(x) => { let ob = self.obj_mut(st, b); ob.data[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]); if let Some(s) = &mut ob.sym { for k in o..o + n { s[k] = 0; } } }
                    V::S(e) => {
                        let w = self.ar.w(*e);
                        let e = if w < n as u32 * 8 { self.ar.zext(*e, n as u32 * 8) } else { *e };
                        let parts: Vec<V> = (0..n).map(|i| { let x = self.ar.extract(e, i as u32 * 8, 8); self.v(x) }).collect();
                        let ob = self.obj_mut(st, b);
                        for (k, p) in parts.iter().enumerate() { put_byte(ob, o + k, p); }
                    }
                    _ => panic!("store agg as scalar"),
                }
                Ok(())
            }
            Ty::Vec(n, et) if et.bits() < 8 => { let x = self.vec_to_int(v, *n, et.bits()); let it = Ty::Int(*n * et.bits()); self.store(st, addr, &it, &x) }
            _ => { if let V::A(xs) = v { let xs = xs.clone(); for i in 0..t.nfields() { let (o, ft) = t.field(i); self.store(st, addr + o, &ft, &xs[i])?; } } Ok(()) }
        }
    }
    pub fn int_to_vec(&mut self, v: V, n: u32, ew: u32) -> V {
        let out = match v {
            V::I(x) => (0..n).map(|i| V::I(if ew >= 64 { x } else { (x >> (i * ew)) & ((1u64 << ew) - 1) })).collect(),
            V::W(x) => (0..n).map(|i| V::konst(ew, *x >> (i * ew))).collect(),
            V::S(e) => (0..n).map(|i| { let y = self.ar.extract(e, i * ew, ew); self.v(y) }).collect(),
            a => return a,
        };
        V::A(Rc::new(out))
    }
    pub fn vec_to_int(&mut self, v: &V, n: u32, ew: u32) -> V {
        if let V::A(xs) = v {
            if xs.iter().all(|x| matches!(x, V::I(_) | V::W(_))) {
                let mut r = 0u128;
                for (i, x) in xs.iter().enumerate() { let y = match x { V::I(a) => *a as u128, V::W(a) => **a, _ => 0 }; r |= (y & mask(ew)) << (i as u32 * ew); }
                return V::konst(n * ew, r);
            }
            let mut r = self.e(&xs[0], ew);
            for x in &xs[1..] { let y = self.e(x, ew); r = self.ar.concat(y, r); }
            return self.v(r);
        }
        v.clone()
    }

    // ---------- path condition ----------
    pub fn feasible(&mut self, st: &State, c: E) -> Result<Option<Rc<Model>>, Step> { self.feasible_by(st, c, true) }
    pub fn feasible_by(&mut self, st: &State, c: E, canon: bool) -> Result<Option<Rc<Model>>, Step> {
        let m = st.model.clone();
        let c = if canon { self.ar.canon(c) } else { c };
        match self.so.check(&mut self.ar, &st.pc, c, &m) {
            Res::Sat(m) => Ok(Some(m)), Res::Unsat => Ok(None),
            Res::Unknown => err(format!("solver gave no answer within {} ms", self.so.timeout_ms)),
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E, m: Rc<Model>) {
        let c = self.ar.canon(c);
        if self.ar.cval(c).is_some() { st.model = m; return; }
        // split conjunctions
        let n = self.ar.n(c);
        if n.op == Op::And { self.assume(st, n.a, m.clone()); self.assume(st, n.b, m); return; }
        if n.op == Op::Not { let k = self.ar.n(n.a); if k.op == Op::Or { let x = self.ar.not(k.a); let y = self.ar.not(k.b); self.assume(st, x, m.clone()); self.assume(st, y, m); return; } }
        if !st.pc.contains(&c) { st.pc.push(c); self.max_pc = self.max_pc.max(st.pc.len()); }
        st.model = m;
    }
    fn note_fork(&mut self, st: &State) {
        self.forks += 1;
        let f = st.frames.last().unwrap();
        *self.forkprof.entry((f.f.id, f.ip)).or_insert(0) += 1;
    }
    /// Decide a condition on this path.  Forks when both sides are feasible: the false side is queued
    /// (re-executing the current instruction under its constraint), the true side continues.
    pub fn decide(&mut self, st: &mut State, c: E) -> Result<bool, Step> {
        if let Some(v) = self.ar.cval(c) { return Ok(v == 1); }
        let m0 = st.model.clone();
        let now = self.ar.eval(c, &m0) == 1;
        let nc = self.ar.not(c);
        let other = if now { nc } else { c };
        let this = if now { c } else { nc };
        match self.feasible(st, other)? {
            None => { Ok(now) }
            Some(m) => {
                self.note_fork(st);
                let mut s2 = st.clone();
                s2.depth += 1;
                self.assume(&mut s2, other, m);
                self.pending.push(s2);
                st.depth += 1;
                self.assume(st, this, m0);
                Ok(now)
            }
        }
    }
    /// Pin an expression to a value on this path; other feasible values are queued.
    pub fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> Result<u128, Step> {
        match v {
            V::I(x) => return Ok(*x as u128),
            V::W(x) => return Ok(**x),
            _ => {}
        }
        let e = self.e(v, w);
        let m = st.model.clone();
        let val = self.ar.eval(e, &m);
        let k = self.ar.konst(w, val);
        let c = self.ar.eq(e, k);
        if self.decide(st, c)? { Ok(val) } else { err("concretize: model side not taken") }
    }
    /// Resolve a pointer for an access of n bytes. Returns concrete address, or None when it is a
    /// symbolic in-object address (base,size,expr).
    fn resolve(&mut self, st: &mut State, p: &V, n: u64) -> Result<Ptr, Step> {
        match p {
            V::I(a) => Ok(Ptr::C(*a)),
            V::S(e) => {
                let e = *e;
                let m = st.model.clone();
                let a0 = self.ar.eval(e, &m) as u64;
                // pointer chosen among few constants: fork on it
                let (base, size) = match self.find(st, a0) {
                    Some((b, s, true)) => (b, s),
                    _ => { let a = self.concretize(st, p, 64)?; return Ok(Ptr::C(a as u64)); }
                };
                if size < n { let a = self.concretize(st, p, 64)?; return Ok(Ptr::C(a as u64)); }
                let (lo, hi) = self.ar.range(e);
                if !(lo >= base && hi <= base + size - n) {
                    let kb = self.ar.konst(64, base as u128); let kl = self.ar.konst(64, (base + size - n) as u128);
                    let c1 = self.ar.ule(kb, e); let c2 = self.ar.ule(e, kl);
                    let c = self.ar.and(c1, c2);
                    if !self.decide(st, c)? { let a = self.concretize(st, p, 64)?; return Ok(Ptr::C(a as u64)); }
                }
                Ok(Ptr::S(e, base, size))
            }
            _ => err("pointer is aggregate"),
        }
    }
    pub fn load_p(&mut self, st: &mut State, p: &V, t: &Ty) -> Result<V, Step> {
        let n = t.size();
        match self.resolve(st, p, n)? {
            Ptr::C(a) => self.load(st, a, t),
            Ptr::S(e, base, size) => {
                let kb = self.ar.konst(64, base as u128);
                let off = self.ar.sub(e, kb);
                let (rl, rh) = self.ar.range(off);
                let hi = rh.min(size - n); let lo = rl.min(hi);
                let tz = self.ar.tz(off).min(20);
                let cnt = ((hi - lo) >> tz) + 1;
                if cnt > 2048 || !t.scalar() || t.bits() > 64 { let a = self.concretize(st, p, 64)?; return self.load(st, a as u64, t); }
                let lo = (lo >> tz) << tz;
                let mut leaves = vec![];
                let mut i = lo;
                let w = t.bits();
                while i <= hi { let v = self.load(st, base + i, t)?; leaves.push(self.e(&v, w)); i += 1 << tz; }
                // select tree on (off - lo) >> tz
                let kl = self.ar.konst(64, lo as u128);
                let d = self.ar.sub(off, kl);
                let bits = if leaves.len() <= 1 { 0 } else { 64 - (leaves.len() as u64 - 1).leading_zeros() };
                let idx = if bits == 0 { 0 } else { self.ar.extract(d, tz, bits) };
                let r = self.sel(&leaves, idx, bits);
                Ok(self.v(r))
            }
        }
    }
    fn sel(&mut self, l: &[E], idx: E, bits: u32) -> E {
        if bits == 0 || l.len() == 1 { return l[0]; }
        let half = 1usize << (bits - 1);
        if l.len() <= half { return self.sel(l, idx, bits - 1); }
        let a = self.sel(&l[..half], idx, bits - 1);
        let b = self.sel(&l[half..], idx, bits - 1);
        if a == b { return a; }
        let c = self.ar.extract(idx, bits - 1, 1);
        self.ar.ite(c, b, a)
    }
    pub fn store_p(&mut self, st: &mut State, p: &V, t: &Ty, v: &V) -> Result<(), Step> {
        let a = match p { V::I(a) => *a, _ => { match self.resolve(st, p, t.size())? { Ptr::C(a) => a, Ptr::S(..) => self.concretize(st, p, 64)? as u64 } } };
        self.store(st, a, t, v)
    }

    // ---------- arithmetic ----------
    pub fn binop(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                match op {
                    Op::Add => return V::I(x.wrapping_add(*y) & m),
                    Op::Sub => return V::I(x.wrapping_sub(*y) & m),
                    Op::Mul => return V::I(x.wrapping_mul(*y) & m),
                    Op::And => return V::I(x & y), Op::Or => return V::I(x | y), Op::Xor => return V::I(x ^ y),
                    Op::Shl => return V::I(if *y >= w as u64 { 0 } else { (x << y) & m }),
                    Op::LShr => return V::I(if *y >= w as u64 { 0 } else { x >> y }),
                    Op::AShr => return V::I(((sx(*x) >> (*y).min(w as u64 - 1)) as u64) & m),
                    Op::UDiv if *y != 0 => return V::I(x / y), Op::URem if *y != 0 => return V::I(x % y),
                    _ => {}
                }
            }
            return V::konst(w, eval2(op, w, *x as u128, *y as u128));
        }
        if let (Some(x), Some(y)) = (conc(a), conc(b)) { return V::konst(w, eval2(op, w, x, y)); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, x, y);
        self.v(r)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let sx = |v: u64| if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) };
            return V::I(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx(*x) > sx(*y), Pred::Sge => sx(*x) >= sx(*y), Pred::Slt => sx(*x) < sx(*y), Pred::Sle => sx(*x) <= sx(*y) } as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p { Pred::Eq => self.ar.eq(x, y), Pred::Ne => self.ar.ne(x, y), Pred::Ugt => self.ar.ult(y, x), Pred::Uge => self.ar.ule(y, x), Pred::Ult => self.ar.ult(x, y), Pred::Ule => self.ar.ule(x, y), Pred::Sgt => self.ar.slt(y, x), Pred::Sge => self.ar.sle(y, x), Pred::Slt => self.ar.slt(x, y), Pred::Sle => self.ar.sle(x, y) };
        self.v(r)
    }
    pub fn lanes2(&mut self, n: u32, a: &V, b: &V, f: &mut dyn FnMut(&mut Ex, &V, &V) -> V) -> V {
        if n == 0 { return f(self, a, b); }
        if let (V::A(x), V::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); let v = x.iter().zip(y.iter()).map(|(p, q)| f(self, p, q)).collect(); return V::A(Rc::new(v)); }
        panic!("lanes2")
    }
    pub fn lanes1(&mut self, n: u32, a: &V, f: &mut dyn FnMut(&mut Ex, &V) -> V) -> V {
        if n == 0 { return f(self, a); }
        if let V::A(x) = a { let x = x.clone(); let v = x.iter().map(|p| f(self, p)).collect(); return V::A(Rc::new(v)); }
        panic!("lanes1")
    }
    pub fn fcmp(&mut self, p: u8, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (tof(w, *x as u128), tof(w, *y as u128));
            let r = (p & 1 != 0 && x == y) || (p & 2 != 0 && x > y) || (p & 4 != 0 && x < y) || (p & 8 != 0 && (x.is_nan() || y.is_nan()));
            return V::I(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let mut r = self.ar.f();
        if p & 1 != 0 { let t = self.ar.bin(Op::FEq, x, y); r = self.ar.or(r, t); }
        if p & 2 != 0 { let t = self.ar.bin(Op::FLt, y, x); r = self.ar.or(r, t); }
        if p & 4 != 0 { let t = self.ar.bin(Op::FLt, x, y); r = self.ar.or(r, t); }
        if p & 8 != 0 { let t = self.ar.bin(Op::FUno, x, y); r = self.ar.or(r, t); }
        self.v(r)
    }
    pub fn select(&mut self, c: &V, a: &V, b: &V, t: &Ty) -> V {
        match c { V::I(1) => return a.clone(), V::I(_) => return b.clone(), _ => {} }
        let ce = if let V::S(e) = c { *e } else { panic!("select cond") };
        match t {
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => {
                if let (V::A(x), V::A(y)) = (a, b) { let (x, y) = (x.clone(), y.clone()); let v = (0..t.nfields()).map(|i| { let ft = t.field(i).1; self.select(c, &x[i], &y[i], &ft) }).collect(); return V::A(Rc::new(v)); }
                panic!("select agg")
            }
            _ => { let w = t.bits(); let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ar.ite(ce, x, y); self.v(r) }
        }
    }
    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, a: &V) -> V {
        match k {
            Cast::Trunc => match a { V::I(x) => V::konst(tw, *x as u128), V::W(x) => V::konst(tw, **x), _ => { let e = self.e(a, fw); let r = self.ar.trunc(e, tw); self.v(r) } },
            Cast::ZExt => match a { V::I(x) => V::konst(tw, *x as u128), V::W(x) => V::konst(tw, **x), _ => { let e = self.e(a, fw); let r = self.ar.zext(e, tw); self.v(r) } },
            Cast::SExt => match conc(a) { Some(x) => V::konst(tw, sext(x, fw) as u128), _ => { let e = self.e(a, fw); let r = self.ar.sext(e, tw); self.v(r) } },
            Cast::Bitcast => a.clone(),
            Cast::FpToUi | Cast::FpToSi | Cast::UiToFp | Cast::SiToFp | Cast::FpTrunc | Cast::FpExt => {
                let op = match k { Cast::FpToUi => Op::FToUi, Cast::FpToSi => Op::FToSi, Cast::UiToFp => Op::UiToF, Cast::SiToFp => Op::SiToF, _ => Op::FCvt };
                if let Some(x) = conc(a) { return V::konst(tw, eval_f1(op, fw, tw, x)); }
                let e = self.e(a, fw); let r = self.ar.fun(op, tw, e); self.v(r)
            }
        }
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let ph = &b.phis[0];
                for (l, o) in &ph.1 { if *l == from { let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() }; fr.regs[ph.0 as usize] = v; break; } }
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for ph in &b.phis { for (l, o) in &ph.1 { if *l == from { vals.push(match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() }); break; } } }
                for (ph, v) in b.phis.iter().zip(vals) { fr.regs[ph.0 as usize] = v; }
            }
        }
        fr.blk = to;
        fr.ip = b.start;
    }

    /// Run one state until it ends; forked siblings are pushed to `pending`.
    pub fn run(&mut self, mut st: State) {
        loop {
            let r = self.step(&mut st);
            match r {
                Ok(()) => {}
                Err(Step::Next) => {}
                Err(Step::Again) => {}
                Err(Step::End(o)) => { self.finish(st, o); return; }
                Err(Step::Frozen) => unreachable!(),
            }
            // let the scheduler take over when asked
        }
    }
    pub fn inputs(&mut self, st: &State, m: &Rc<Model>) -> Vec<(String, Vec<u8>)> {
        let ev = st.sym_events.clone();
        ev.iter().map(|(n, es)| (n.clone(), es.iter().map(|&e| self.ar.eval(e, m) as u8).collect())).collect()
    }
    pub fn report(&mut self, st: &State, label: &str, detail: &str, m: &Rc<Model>) {
        let c = self.viol_labels.entry(label.to_string()).or_insert(0);
        *c += 1;
        if *c > 4 { return; }
        let inputs = self.inputs(st, m);
        self.viols.push(Viol { label: label.to_string(), detail: detail.to_string(), inputs });
    }
    /// Violations that stop the search: known ones (label "K: ...") do not.
    pub fn stopping(&self) -> u64 { self.viol_labels.iter().filter(|x| !x.0.starts_with("K:")).map(|x| *x.1 as u64).sum() }
    fn finish(&mut self, st: State, o: Out) {
        self.instrs += st.steps;
        match o {
            Out::Done => {
                self.paths += 1;
                for c in st.covers.iter() { *self.covers.entry(c.clone()).or_insert(0) += 1; }
                if self.samples.len() < self.sample_max || (self.paths % 97 == 0 && self.sample_max > 0) {
                    let m = st.model.clone();
                    let ins = self.inputs(&st, &m);
                    let obs: Vec<u64> = st.obs.iter().map(|v| match v { V::I(x) => *x, V::S(e) => self.ar.eval(*e, &m) as u64, _ => 0 }).collect();
                    if self.samples.len() >= self.sample_max { let i = (self.paths / 97) as usize % self.sample_max; self.samples[i] = (ins, obs); } else { self.samples.push((ins, obs)); }
                }
            }
            Out::Killed => self.killed += 1,
            Out::Abandoned => self.abandoned += 1,
            Out::Violation(l, d) => { self.paths += 1; let m = st.model.clone(); self.report(&st, &l, &d, &m); }
            Out::Error(e) => { let bt = self.backtrace(&st); if self.errors.len() < 20 { self.errors.push(format!("{e} [in {bt}]")); } }
        }
    }

    /// Execute instructions until something interesting happens (fork leaves a sibling in pending).
    fn step(&mut self, st: &mut State) -> Result<(), Step> {
        loop {
            st.steps += 1;
            if st.steps & 63 == 0 {
                if st.steps > self.step_limit { let bt = self.backtrace(st); return Err(Step::End(Out::Violation("hang".into(), format!("no end after {} instructions in {bt}", self.step_limit)))); }
                if self.deadline.is_some_and(|d| std::time::Instant::now() >= d) || self.stop.is_some_and(|s| s.load(std::sync::atomic::Ordering::Relaxed) == 1) { return Err(Step::End(Out::Abandoned)); }
            }
            let fr = st.frames.last().unwrap();
            let f = fr.f;
            let i: &'static I = &f.code[fr.ip as usize];
            if self.trace && st.steps < 2000 { eprintln!("{} {:?} regs={:?}", fr.ip, i, fr.regs); }
            match i {
                I::Bin { op, w, n, d, a, b } => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && *n == 0 {
                        let z = self.icmp(Pred::Eq, *w, &y, &V::konst(*w, 0));
                        let z = match z { V::I(b) => b == 1, V::S(e) => self.decide(st, e)?, _ => false };
                        if z { return err("division by zero reached (UB in IR)"); }
                    }
                    let (op, w) = (*op, *w);
                    let r = if *n == 0 { self.binop(op, w, &x, &y) } else { self.lanes2(*n, &x, &y, &mut |ex, p, q| ex.binop(op, w, p, q)) };
                    self.set(st, *d, r);
                }
                I::ICmp { p, w, n, d, a, b } => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (p, w) = (*p, *w);
                    let r = if *n == 0 { self.icmp(p, w, &x, &y) } else { self.lanes2(*n, &x, &y, &mut |ex, q, r| ex.icmp(p, w, q, r)) };
                    self.set(st, *d, r);
                }
                I::FCmp { p, w, n, d, a, b } => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (p, w) = (*p, *w);
                    let r = self.lanes2(*n, &x, &y, &mut |ex, q, r| ex.fcmp(p, w, q, r));
                    self.set(st, *d, r);
                }
                I::FNeg { w, n, d, a } => {
                    let x = self.get(st, a); let w = *w;
                    let r = self.lanes1(*n, &x, &mut |ex, q| ex.binop(Op::Xor, w, q, &V::konst(w, 1 << (w - 1))));
                    self.set(st, *d, r);
                }
                I::Cast { k, f: ft, t, d, a } => {
                    let x = self.get(st, a);
                    let r = match (&**ft, &**t) {
                        (Ty::Vec(n, fe), Ty::Vec(tn, te)) if *k == Cast::Bitcast => {
                            let (n, fw, tn, tw) = (*n, fe.bits(), *tn, te.bits());
                            if fw == tw { x } else if fw < tw {
                                let k = tw / fw;
                                if let V::A(xs) = &x { let xs = xs.clone(); let v = (0..tn).map(|i| { let part = V::A(Rc::new(xs[(i * k) as usize..((i + 1) * k) as usize].to_vec())); self.vec_to_int(&part, k, fw) }).collect(); V::A(Rc::new(v)) } else { panic!() }
                            } else {
                                let k = fw / tw; let _ = n;
                                if let V::A(xs) = &x { let xs = xs.clone(); let mut v = vec![]; for y in xs.iter() { if let V::A(p) = self.int_to_vec(y.clone(), k, tw) { v.extend(p.iter().cloned()); } } V::A(Rc::new(v)) } else { panic!() }
                            }
                        }
                        (Ty::Vec(n, fe), t2) if *k == Cast::Bitcast => { let _ = t2; if *n * fe.bits() > 128 { return err("wide vector bitcast"); } self.vec_to_int(&x, *n, fe.bits()) }
                        (_, Ty::Vec(n, te)) if *k == Cast::Bitcast => self.int_to_vec(x, *n, te.bits()),
                        (Ty::Vec(n, fe), Ty::Vec(_, te)) => { let (fw, tw, k) = (fe.bits(), te.bits(), *k); self.lanes1(*n, &x, &mut |ex, q| ex.cast1(k, fw, tw, q)) }
                        (f0, t0) => self.cast1(*k, f0.bits(), t0.bits(), &x),
                    };
                    self.set(st, *d, r);
                }
                I::Load { t, d, p } => { let p = self.get(st, p); let r = if let V::I(a) = p { self.load(st, a, t)? } else { self.load_p(st, &p, t)? }; self.set(st, *d, r); }
                I::Store { t, v, p } => { let p = self.get(st, p); let v = self.get(st, v); if let V::I(a) = p { self.store(st, a, t, &v)? } else { self.store_p(st, &p, t, &v)? } }
                I::Gep { d, base, off, idx } => {
                    let mut r = self.get(st, base);
                    if *off != 0 { r = self.binop(Op::Add, 64, &r, &V::I(*off as u64)); }
                    for (o, w, sc) in idx {
                        let mut x = self.get(st, o);
                        if *w < 64 { x = self.cast1(Cast::SExt, *w, 64, &x); }
                        if *sc != 1 { x = self.binop(Op::Mul, 64, &x, &V::I(*sc as u64)); }
                        r = self.binop(Op::Add, 64, &r, &x);
                    }
                    self.set(st, *d, r);
                }
                I::Alloca { d, off } => { let a = ((STACK_ID + st.stack.len() as u64 - 1) << WIN) + off; self.set(st, *d, V::I(a)); }
                I::AllocaDyn { d, size, n } => { let n = self.get(st, n); let n = self.concretize(st, &n, 64)? as u64; let a = self.alloc(st, size * n); self.set(st, *d, V::I(a)); }
                I::Select { c, vc, t, d, a, b } => {
                    let (c, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b));
                    let r = if *vc {
                        let et = t.field(0).1;
                        if let (V::A(cs), V::A(xs), V::A(ys)) = (&c, &x, &y) { let (cs, xs, ys) = (cs.clone(), xs.clone(), ys.clone()); V::A(Rc::new((0..cs.len()).map(|i| self.select(&cs[i], &xs[i], &ys[i], &et)).collect())) } else { panic!() }
                    } else {
                        // a choice between two constant lengths, offsets or addresses: one path each keeps addresses concrete
                        let c = match (&c, &x, &y, &**t) { (V::S(e), V::I(p), V::I(q), Ty::Ptr) | (V::S(e), V::I(p), V::I(q), Ty::Int(64)) if p != q => { let e = *e; V::I(self.decide(st, e)? as u64) } _ => c };
                        self.select(&c, &x, &y, t)
                    };
                    self.set(st, *d, r);
                }
                I::ExtractValue { d, a, path } => { let mut x = self.get(st, a); for k in path { x = if let V::A(v) = &x { v[*k as usize].clone() } else { panic!("extractvalue") }; } self.set(st, *d, x); }
                I::InsertValue { d, a, v, path } => { let mut x = self.get(st, a); let v = self.get(st, v); insert_path(&mut x, path, v); self.set(st, *d, x); }
                I::ExtractElem { d, a, i } => { let x = self.get(st, a); let i = self.get(st, i); let i = self.concretize(st, &i, 64)? as usize; if let V::A(v) = &x { let r = v[i].clone(); self.set(st, *d, r); } }
                I::InsertElem { d, a, v, i } => { let mut x = self.get(st, a); let i = self.get(st, i); let i = self.concretize(st, &i, 64)? as usize; let v = self.get(st, v); if let V::A(vs) = &mut x { Rc::make_mut(vs)[i] = v; } self.set(st, *d, x); }
                I::Shuffle { d, a, b, n, m } => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    if let (V::A(p), V::A(q)) = (&x, &y) { let r = m.iter().map(|&k| if k < 0 { V::I(0) } else if (k as u32) < *n { p[k as usize].clone() } else { q[(k as u32 - n) as usize].clone() }).collect(); self.set(st, *d, V::A(Rc::new(r))); }
                }
                I::RmwI { op, w, d, p, v } => {
                    let p = self.get(st, p); let v = self.get(st, v);
                    let t = Ty::Int(*w);
                    let old = self.load_p(st, &p, &t)?;
                    let w = *w;
                    let new = match op {
                        Rmw::Xchg => v, Rmw::Add => self.binop(Op::Add, w, &old, &v), Rmw::Sub => self.binop(Op::Sub, w, &old, &v), Rmw::And => self.binop(Op::And, w, &old, &v),
                        Rmw::Or => self.binop(Op::Or, w, &old, &v), Rmw::Xor => self.binop(Op::Xor, w, &old, &v),
                        Rmw::Nand => { let x = self.binop(Op::And, w, &old, &v); self.binop(Op::Xor, w, &x, &V::konst(w, u128::MAX)) }
                        Rmw::Max | Rmw::Min | Rmw::UMax | Rmw::UMin => { let p = match op { Rmw::Max => Pred::Sgt, Rmw::Min => Pred::Slt, Rmw::UMax => Pred::Ugt, _ => Pred::Ult }; let c = self.icmp(p, w, &old, &v); self.select(&c, &old, &v, &t) }
                        _ => return err("rmw op"),
                    };
                    self.store_p(st, &p, &t, &new)?;
                    self.set(st, *d, old);
                }
                I::CmpXchg { w, d, p, c, v } => {
                    let p = self.get(st, p); let c = self.get(st, c); let v = self.get(st, v);
                    let t = Ty::Int(*w);
                    let old = self.load_p(st, &p, &t)?;
                    let e = self.icmp(Pred::Eq, *w, &old, &c);
                    let ok = match &e { V::I(x) => *x == 1, V::S(e) => { let e = *e; self.decide(st, e)? } _ => false };
                    if ok { self.store_p(st, &p, &t, &v)?; }
                    self.set(st, *d, V::A(Rc::new(vec![old, V::I(ok as u64)])));
                }
                I::Copy { d, a } => { let x = self.get(st, a); self.set(st, *d, x); }
                I::Nop => {}
                I::Point => if st.armed {
                    let Some(f) = self.point.and_then(|f| self.m.func(f)) else { return err("__vp_point") };
                    self.push_frame(st, f, vec![], 0, false, u32::MAX);
                    continue;
                }
                I::Br(t) => { self.jump(st, *t); continue; }
                I::CondBr(c, t, fl) => {
                    let c = self.get(st, c);
                    let b = match c { V::I(x) => x == 1, V::S(e) => self.decide(st, e)?, _ => return err("br cond") };
                    self.jump(st, if b { *t } else { *fl });
                    continue;
                }
                I::Switch { w, v, def, cases } => {
                    let v = self.get(st, v);
                    let mut to = *def;
                    if let Some(x) = conc(&v) { for (k, l) in cases { if *k == x { to = *l; break; } } }
                    else {
                        // pick the target under the model, fork on "same target"
                        let e = self.e(&v, *w);
                        let m = st.model.clone();
                        let x = self.ar.eval(e, &m);
                        let mut hit = false;
                        for (k, l) in cases { if *k == x { to = *l; hit = true; break; } }
                        let mut c = self.ar.f();
                        for (k, l) in cases { if (*l == to) == true { let kk = self.ar.konst(*w, *k); let q = self.ar.eq(e, kk); c = self.ar.or(c, q); } }
                        if !hit || to == *def {
                            // default target: none of the cases with a different label
                            c = self.ar.t();
                            for (k, l) in cases { if *l != to { let kk = self.ar.konst(*w, *k); let q = self.ar.ne(e, kk); c = self.ar.and(c, q); } }
                        }
                        if !self.decide(st, c)? { return err("switch decide"); }
                    }
                    self.jump(st, to);
                    continue;
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| self.get(st, o));
                    let fr = st.frames.pop().unwrap();
                    st.stack.pop();
                    if st.frames.is_empty() { return Err(Step::End(Out::Done)); }
                    if fr.has_ret { if let Some(v) = v { self.set(st, fr.ret, v); } }
                    if fr.after != u32::MAX { self.jump(st, fr.after); } else { st.frames.last_mut().unwrap().ip += 1; }
                    continue;
                }
                I::Unreachable => { let bt = self.backtrace(st); return Err(Step::End(Out::Violation("unreachable".into(), format!("reached `unreachable` in {bt}")))); }
                I::Trap(s) => return err(format!("unsupported: {s}")),
                I::Call(c) => { self.call(st, c)?; continue; }
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }
    pub fn ret_to(&mut self, st: &mut State, c: &CallI, v: Option<V>) {
        if c.has_d { if let Some(v) = v { self.set(st, c.d, v); } }
        if c.normal != u32::MAX { self.jump(st, c.normal); } else { st.frames.last_mut().unwrap().ip += 1; }
    }
    fn call(&mut self, st: &mut State, c: &'static CallI) -> Result<(), Step> {
        let cv = self.get(st, &c.callee);
        let ca = match cv { V::I(x) => x, ref o => self.concretize(st, o, 64)? as u64 };
        if ca < FUNC_BASE || (ca - FUNC_BASE) % 16 != 0 || (ca - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 {
            return self.memerr(st, format!("call of non-function address {ca:#x}"));
        }
        let fid = ((ca - FUNC_BASE) / 16) as u32;
        let args: Vec<V> = c.args.iter().map(|a| self.get(st, a)).collect();
        if self.m.funcs[fid as usize].name == "__vp_try" {
            let V::I(t) = args[0] else { return err("__vp_try") };
            let Some(f) = self.m.func(((t - FUNC_BASE) / 16) as u32) else { return err("__vp_try") };
            st.nested = Some((st.frames.len(), c));
            st.tls2 = Default::default();
            self.push_frame(st, f, vec![args[1].clone()], c.d, c.has_d, c.normal);
            return Ok(());
        }
        if let Some(b) = self.builtins.get(&fid).copied() {
            let r = match b(self, st, c, args) { Err(Step::Frozen) => return self.freeze(st), r => r? };
            self.ret_to(st, c, r);
            return Ok(());
        }
        match self.m.func(fid) {
            Some(f) => {
                self.funprof[fid as usize] += 1;
                if st.frames.len() > 2000 { return err("call depth"); }
                self.push_frame(st, f, args, c.d, c.has_d, c.normal);
                Ok(())
            }
            None => {
                let n = self.m.funcs[fid as usize].name;
                match crate::builtins::external(self, st, n, c, args) { Err(Step::Frozen) => self.freeze(st), r => { let r = r?; self.ret_to(st, c, r); Ok(()) } }
            }
        }
    }
    fn freeze(&mut self, st: &mut State) -> Result<(), Step> {
        let (n, c) = st.nested.take().unwrap();
        st.frames.truncate(n); st.stack.truncate(n);
        self.ret_to(st, c, Some(V::I(1)));
        Ok(())
    }
}
pub enum Ptr { C(u64), S(E, u64, u64) }
pub fn conc(v: &V) -> Option<u128> { match v { V::I(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
fn insert_path(x: &mut V, path: &[u32], v: V) { if path.is_empty() { *x = v; return; } if let V::A(a) = x { insert_path(&mut Rc::make_mut(a)[path[0] as usize], &path[1..], v); } else { panic!("insertvalue") } }
fn put_byte(ob: &mut Obj, i: usize, v: &V) {
    match v {
        V::I(x) => { ob.data[i] = *x as u8; if let Some(s) = &mut ob.sym { s[i] = 0; } }
        V::S(e) => { let n = ob.data.len(); ob.sym.get_or_insert_with(|| vec![0; n])[i] = *e; }
        _ => panic!("put_byte"),
    }
}

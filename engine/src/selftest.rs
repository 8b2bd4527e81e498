//! Self test: simplified expressions agree with direct evaluation and with z3.
use crate::expr::*;
use crate::solver::*;
pub fn run() -> i32 {
    let mut s = 0x1234_5678_9abc_def1u64;
    let mut r = move |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 11) % n };
    let mut bad = 0;
    for round in 0..3000 {
        let mut ar = Arena::new();
        // pool of (expr, per-model values) ; values tracked independently of the simplifier
        let nm = 6;
        let mut so_models: Vec<Model> = vec![];
        for k in 0..nm { let v = (0..6).map(|_| match r(4) { 0 => 0, 1 => 255, _ => r(256) }).collect(); so_models.push(Model { id: round * 100 + k + 1, vals: v }); }
        let mut pool: Vec<(E, Vec<u128>)> = vec![];
        for i in 0..6 { let e = ar.var(&format!("x{i}"), 8); pool.push((e, so_models.iter().map(|m| m.vals[i] as u128).collect())); }
        for _ in 0..60 {
            let i = r(pool.len() as u64) as usize; let (a, va) = pool[i].clone();
            let w = ar.w(a);
            let same: Vec<usize> = (0..pool.len()).filter(|&j| ar.w(pool[j].0) == w).collect();
            let (b, vb) = if r(3) == 0 { let k = match r(5) { 0 => 0, 1 => mask(w), 2 => 1u128 << r(w as u64), 3 => mask(1 + r(w as u64) as u32), _ => r(300) as u128 } & mask(w); (ar.konst(w, k), vec![k; nm as usize]) } else { pool[same[r(same.len() as u64) as usize]].clone() };
            let bins = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
            let (e, v): (E, Vec<u128>) = match r(8) {
                0..=3 => { let op = bins[r(bins.len() as u64) as usize]; let (a, va, b, vb) = if r(2) == 0 { (a, va, b, vb) } else { (b, vb, a, va) };
                    (ar.bin(op, a, b), va.iter().zip(vb.iter()).map(|(x, y)| eval2(op, w, *x, *y)).collect()) }
                4 => { if w < 2 { continue; } let lo = r(w as u64 - 1) as u32; let n = 1 + r((w - lo) as u64) as u32; (ar.extract(a, lo, n), va.iter().map(|x| (x >> lo) & mask(n)).collect()) }
                5 => { let (c, vc) = pool[r(pool.len() as u64) as usize].clone(); let cw = ar.w(c); if cw + w > 100 { continue; } (ar.concat(a, c), va.iter().zip(vc.iter()).map(|(x, y)| (x << cw) | y).collect()) }
                6 => { let n = w + r(20) as u32; if n > 100 { continue; } if r(2) == 0 { (ar.sext(a, n), va.iter().map(|x| sext(*x, w) as u128 & mask(n)).collect()) } else { (ar.zext(a, n), va) } }
                _ => { let bs: Vec<usize> = (0..pool.len()).filter(|&j| ar.w(pool[j].0) == 1).collect(); if bs.is_empty() { (ar.not(a), va.iter().map(|x| !x & mask(w)).collect()) } else { let (c, vc) = pool[bs[r(bs.len() as u64) as usize]].clone(); (ar.ite(c, a, b), (0..nm as usize).map(|k| if vc[k] == 1 { va[k] } else { vb[k] }).collect()) } }
            };
            for (k, m) in so_models.iter().enumerate() {
                let g = ar.eval(e, m);
                if g != v[k] { println!("MISMATCH round {round}: {} = {:#x}, want {:#x}", ar.show(e, 5), g, v[k]); bad += 1; if bad > 10 { return 1; } }
                if ar.w(e) <= 64 { let (lo, hi) = ar.range(e); if (v[k] as u64) < lo || (v[k] as u64) > hi { println!("RANGE round {round}: {} = {:#x} not in [{lo:#x},{hi:#x}]", ar.show(e, 4), v[k]); bad += 1; if bad > 10 { return 1; } } }
            }
            pool.push((e, v));
        }
        // canonical forms and byte tables agree with z3
        if round % 100 == 0 {
            let mut so = Solver::new(20000);
            let x = ar.var("x0", 8);
            let mut es = vec![x];
            for _ in 0..14 { let a = es[r(es.len() as u64) as usize]; let b = if r(2) == 0 { ar.konst(8, r(256) as u128) } else { es[r(es.len() as u64) as usize] };
                let ops = [Op::Add, Op::Sub, Op::And, Op::Or, Op::Xor, Op::Mul, Op::LShr, Op::Shl]; let e = ar.bin(ops[r(8) as usize], a, b); es.push(e); }
            let mut bs = vec![];
            for _ in 0..10 { let a = es[r(es.len() as u64) as usize]; let b = if r(2) == 0 { ar.konst(8, r(256) as u128) } else { es[r(es.len() as u64) as usize] }; let ps = [Op::Eq, Op::Ult, Op::Ule, Op::Slt]; let p = ar.bin(ps[r(4) as usize], a, b); bs.push(p); }
            let y = ar.var("x1", 8); let k = ar.konst(8, r(256) as u128); let q = ar.bin(Op::Ult, y, k); bs.push(q);
            for _ in 0..8 { let a = bs[r(bs.len() as u64) as usize]; let b = bs[r(bs.len() as u64) as usize]; let p = match r(4) { 0 => ar.and(a, b), 1 => ar.or(a, b), 2 => ar.not(a), _ => ar.xor(a, b) }; bs.push(p); }
            for b in bs { let c = ar.canon(b); if !so.equiv(&mut ar, b, c) { println!("CANON round {round}: {} vs {}", ar.show(b, 5), ar.show(c, 5)); bad += 1; } }
        }
        // the same for floating-point formulas over one byte
        if round % 750 == 0 {
            let mut so = Solver::new(4000);
            let x = ar.var("x0", 8); let x = ar.zext(x, 64);
            let k = |ar: &mut Arena, f: f64| ar.konst(64, f.to_bits() as u128);
            let mut fs = vec![ar.fun(Op::UiToF, 64, x)];
            for _ in 0..2 { let a = fs[r(fs.len() as u64) as usize]; let c = [0.1, 1e9, -3.5, 0.333, 2e-9, 1e-300][r(6) as usize]; let b = k(&mut ar, c); let op = [Op::FAdd, Op::FMul, Op::FSub, Op::FMul][r(4) as usize]; let e = ar.bin(op, a, b); fs.push(e); }
            let last = *fs.last().unwrap(); let v = ar.eval(last, &so_models[0]);
            let kk = ar.konst(64, v); let p = ar.bin(Op::FLt, last, kk); let t = ar.fun(Op::FToSi, 64, last); let z = ar.konst(64, 40); let q = ar.bin(Op::Slt, t, z);
            // conversions out of range are unspecified, so only in-range ones are compared
            let lo = k(&mut ar, -1e15); let hi = k(&mut ar, 1e15); let a = ar.bin(Op::FLt, lo, last); let b = ar.bin(Op::FLt, last, hi); let q = ar.and(q, a); let q = ar.and(q, b);
            for b in [p, q] { let c = ar.canon(b); if so.differ(&mut ar, b, c) == 1 { println!("FP CANON round {round}: {} vs {}", ar.show(b, 6), ar.show(c, 5)); bad += 1; } }
        }
        // z3 agrees with the evaluator: assert e == value under pinned variables
        if round % 60 == 0 {
            let mut so = Solver::new(20000);
            for (e, v) in pool.iter().rev().take(8) {
                let m = &so_models[0];
                let mut c = ar.t();
                for i in 0..6 { let x = ar.var(&format!("x{i}"), 8); let k = ar.konst(8, m.vals[i] as u128); let q = ar.eq(x, k); c = ar.and(c, q); }
                let w = ar.w(*e); let k = ar.konst(w, v[0]); let q = ar.ne(*e, k); let c2 = ar.and(c, q);
                let base = std::rc::Rc::new(Model { id: so.fresh_model_id() + 1_000_000_000, vals: vec![] });
                match so.check(&mut ar, &[], c2, &base) { Res::Unsat => {} _ => { println!("Z3 DISAGREES round {round}"); bad += 1; } }
            }
        }
    }
    println!("selftest: {} mismatches", bad);
    (bad > 0) as i32
}

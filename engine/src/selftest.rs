//! Differential self-test of the expression layer: every simplified expression is compared with the
//! plain evaluation of its operands under random models, its value with the computed bounds, and
//! both solver encodings with the evaluator.
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;

pub fn run(rounds: u64, seed: u64) -> Result<String, String> {
    let mut s = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut rnd = move |n: u64| -> u64 { s ^= s << 13; s ^= s >> 7; s ^= s << 17; (s >> 11) % n };
    let (mut checked, mut solved) = (0u64, 0u64);
    for _ in 0..rounds {
        let mut p = Pool::new();
        let mut z = Z3::new(4_000_000);
        let mut es: Vec<E> = vec![];
        let mut widths = vec![];
        for seq in 0..5u32 {
            let (w, d) = match seq { 0 => (16, 0), 1 => (64, 5), 2 => (8, 0), 3 => (64, 7), _ => (32, 0) };
            es.push(p.var(seq, w, d));
            widths.push((w, d));
        }
        for (w, v) in [(8u32, 0u128), (8, 0xff), (16, 0x8000), (32, 1), (64, 3), (64, u64::MAX as u128), (32, 0x00ff00ff), (1, 1)] { es.push(p.cst(v, w)); }
        let models: Vec<Vec<u64>> = (0..6).map(|k| widths.iter().map(|(w, d)| if *d > 0 { rnd(*d as u64) } else { let m = mask(*w) as u64; match k { 0 => 0, 1 => m, 2 => 1 << (w - 1), _ => (rnd(1 << 40) << 24 ^ rnd(1 << 40)) & m } }).collect()).collect();
        let ev = |p: &Pool, e: E, m: &Vec<u64>| p.eval(e, m, &mut HashMap::new());
        for _ in 0..120 {
            let a = es[rnd(es.len() as u64) as usize];
            let w = p.width(a);
            let kind = rnd(12);
            let (e, want): (E, Vec<u128>) = match kind {
                0..=6 => {
                    let mut b = es[rnd(es.len() as u64) as usize];
                    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle, Op::Concat, Op::Add, Op::Sub, Op::Eq, Op::Concat, Op::Or];
                    let op = ops[rnd(ops.len() as u64) as usize];
                    if op == Op::Concat {
                        if w + p.width(b) > 64 { continue; }
                    } else if p.width(b) != w {
                        let bw = p.width(b);
                        b = if bw > w { p.extract(b, 0, w) } else if rnd(2) == 0 { p.zext(b, w) } else { p.sext(b, w) };
                    }
                    if matches!(op, Op::Shl | Op::LShr | Op::AShr) && rnd(2) == 0 { b = p.cst(rnd(w as u64) as u128, w); }
                    let bw = p.width(b);
                    let want = models.iter().map(|m| { let (x, y) = (ev(&p, a, m), ev(&p, b, m)); if op == Op::Concat { x << bw | y } else { bin_eval(op, x, y, w) } }).collect();
                    (p.bin(op, a, b), want)
                }
                7 => {
                    let n = 1 + rnd(w as u64) as u32;
                    let lo = rnd((w - n + 1) as u64) as u32;
                    let want = models.iter().map(|m| (ev(&p, a, m) >> lo) & mask(n)).collect();
                    (p.extract(a, lo, n), want)
                }
                8 | 9 => {
                    let n = (w + rnd(40) as u32).min(72);
                    if kind == 8 { let want = models.iter().map(|m| ev(&p, a, m)).collect(); (p.zext(a, n), want) }
                    else { let want = models.iter().map(|m| sext128(ev(&p, a, m), w) as u128 & mask(n)).collect(); (p.sext(a, n), want) }
                }
                10 => {
                    let mut c = es[rnd(es.len() as u64) as usize];
                    if p.width(c) != 1 { c = p.extract(c, 0, 1); }
                    let b = es[rnd(es.len() as u64) as usize];
                    if p.width(b) != w { continue; }
                    let want = models.iter().map(|m| if ev(&p, c, m) == 1 { ev(&p, a, m) } else { ev(&p, b, m) }).collect();
                    (p.ite(c, a, b), want)
                }
                _ => { let want = models.iter().map(|m| !ev(&p, a, m) & mask(w)).collect(); (p.not(a), want) }
            };
            let ew = p.width(e);
            for (m, want) in models.iter().zip(&want) {
                let got = ev(&p, e, m);
                checked += 1;
                if got != *want { return Err(format!("simplifier: {} under {:?}: {} instead of {}", p.show(e), m, got, want)); }
                if ew <= 100 {
                    let (r, sg) = (p.rng[e as usize], sext128(got, ew));
                    if sg < r.sl || sg > r.sh || (got as i128) < r.ul || got as i128 > r.uh { return Err(format!("bounds: {} under {:?}: {} not in {:?}", p.show(e), m, got, r)); }
                }
            }
            es.push(e);
        }
        // solver encodings: under a fixed model, e == value is satisfiable and e != value is not
        for _ in 0..6 {
            let e = es[13 + rnd((es.len() - 13) as u64) as usize];
            let w = p.width(e);
            if w > 64 || p.as_const(e).is_some() { continue; }
            let m = &models[rnd(6) as usize];
            let v = ev(&p, e, m);
            let k = p.cst(v, w);
            let eq = p.bin(Op::Eq, e, k);
            let ne = p.not(eq);
            let mut fix = vec![];
            let vars: Vec<u32> = (0..p.vars.len() as u32).collect();
            let mut doms = vec![];
            for &x in &vars {
                let vi = &p.vars[x as usize];
                let (vw, ds) = (vi.width, vi.dsize);
                if ds > 0 { let mut d = [0u64; 4]; d[0] = 1 << m[x as usize]; doms.push((x, d)); }
                else { let ve = p.var(x, vw, 0); let k = p.cst(m[x as usize] as u128, vw); fix.push(p.bin(Op::Eq, ve, k)); }
            }
            for (c, sat) in [(eq, true), (ne, false)] {
                if p.as_const(c).is_some() { continue; }
                for mode in [false, true] {
                    z.no_int = mode;
                    let mut cs = fix.clone();
                    cs.push(c);
                    match z.check(&p, &cs, &doms, &vars) {
                        Res::Sat(_) if !sat => return Err(format!("encoding (int={}): {} != {} satisfiable under {:?}", !mode, p.show(e), v, m)),
                        Res::Unsat if sat => return Err(format!("encoding (int={}): {} == {} unsatisfiable under {:?}", !mode, p.show(e), v, m)),
                        _ => solved += 1,
                    }
                }
            }
        }
        z.delete();
    }
    Ok(format!("{} evaluations, {} solver comparisons agree", checked, solved))
}

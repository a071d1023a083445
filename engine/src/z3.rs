//! Minimal FFI to libz3: translation of expressions, satisfiability queries, models.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_get_numeral_int64(c: P, v: P, u: *mut i64) -> bool;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_interrupt(c: P);
    fn Z3_del_context(c: P);
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("symex: z3 error {}: {:?}", e, m);
    std::process::abort();
}

/// integer term congruent to the expression modulo 2^width, with bounds
#[derive(Clone, Copy)]
struct I { t: P, lo: i128, hi: i128 }

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 {
    ctx: P,
    solver: P,
    bool_memo: HashMap<E, P>,
    bv_memo: HashMap<E, P>,
    var_memo: HashMap<u32, P>,
    dom_memo: HashMap<(u32, [u64; 4]), P>,
    sorts: HashMap<u32, P>,
    pub no_int: bool,
    isort: P,
    isolver: P,
    ivar_memo: HashMap<u32, P>,
    int_memo: HashMap<E, Option<I>>,
    ibool_memo: HashMap<E, Option<P>>,
    pub int_queries: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let solver = if std::env::var("SX_SOLVER").as_deref() == Ok("qfbv") {
                let s = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, s.as_ptr()))
            } else { Z3_mk_simple_solver(ctx) };
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, solver, p);
            let isolver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, isolver);
            Z3_solver_set_params(ctx, isolver, p);
            Z3 { no_int: std::env::var("SX_NOINT").is_ok(), isort: Z3_mk_int_sort(ctx), isolver, ivar_memo: HashMap::new(), int_memo: HashMap::new(), ibool_memo: HashMap::new(), int_queries: 0, ctx, solver, bool_memo: HashMap::new(), bv_memo: HashMap::new(), var_memo: HashMap::new(),
                 dom_memo: HashMap::new(), sorts: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0 }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 { let s = self.sort(w); Z3_mk_unsigned_int64(self.ctx, v as u64, s) }
            else {
                let s64 = self.sort(64); let sh = self.sort(w - 64);
                let lo = Z3_mk_unsigned_int64(self.ctx, v as u64, s64);
                let hi = Z3_mk_unsigned_int64(self.ctx, (v >> 64) as u64, sh);
                Z3_mk_concat(self.ctx, hi, lo)
            }
        }
    }
    fn var(&mut self, p: &Pool, v: u32) -> P {
        if let Some(x) = self.var_memo.get(&v) { return *x; }
        let w = p.vars[v as usize].width;
        let s = self.sort(w);
        let x = unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as c_int), s) };
        self.var_memo.insert(v, x);
        x
    }
    /// runs of equal values of a table: (lo, hi, value)
    fn runs(t: &[u64]) -> Vec<(usize, usize, u64)> {
        let mut r: Vec<(usize, usize, u64)> = vec![];
        for (i, &v) in t.iter().enumerate() {
            match r.last_mut() { Some(l) if l.2 == v => l.1 = i, _ => r.push((i, i, v)) }
        }
        r
    }
    fn range(&mut self, p: &Pool, v: u32, lo: usize, hi: usize) -> P {
        let w = p.vars[v as usize].width;
        let x = self.var(p, v);
        unsafe {
            let l = self.num(lo as u128, w);
            if lo == hi { return Z3_mk_eq(self.ctx, x, l); }
            let h = self.num(hi as u128, w);
            let mut cs = vec![];
            if lo > 0 { cs.push(Z3_mk_bvule(self.ctx, l, x)); }
            cs.push(Z3_mk_bvule(self.ctx, x, h));
            Z3_mk_and(self.ctx, cs.len() as c_uint, cs.as_ptr())
        }
    }
    pub fn boolean(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.bool_memo.get(&e) { return *x; }
        let c = self.ctx;
        let r = unsafe {
            match p.nodes[e as usize].0.clone() {
                Node::Const(1) => Z3_mk_true(c),
                Node::Const(_) => Z3_mk_false(c),
                Node::Tab(v, t) => {
                    let rs = Self::runs(&p.tabs[t as usize]);
                    let cs: Vec<P> = rs.into_iter().filter(|r| r.2 == 1).map(|r| self.range(p, v, r.0, r.1)).collect();
                    Z3_mk_or(c, cs.len() as c_uint, cs.as_ptr())
                }
                Node::Bin(Op::And, a, b) => { let xs = [self.boolean(p, a), self.boolean(p, b)]; Z3_mk_and(c, 2, xs.as_ptr()) }
                Node::Bin(Op::Or, a, b) => { let xs = [self.boolean(p, a), self.boolean(p, b)]; Z3_mk_or(c, 2, xs.as_ptr()) }
                Node::Bin(Op::Xor, a, b) if p.as_const(b) == Some(1) => { let x = self.boolean(p, a); Z3_mk_not(c, x) }
                Node::Bin(Op::Eq, a, b) => {
                    if p.width(a) == 1 { let (x, y) = (self.boolean(p, a), self.boolean(p, b)); Z3_mk_eq(c, x, y) }
                    else { let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_eq(c, x, y) }
                }
                Node::Bin(Op::Ult, a, b) => { let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_bvult(c, x, y) }
                Node::Bin(Op::Ule, a, b) => { let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_bvule(c, x, y) }
                Node::Bin(Op::Slt, a, b) => { let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_bvslt(c, x, y) }
                Node::Bin(Op::Sle, a, b) => { let (x, y) = (self.bv(p, a), self.bv(p, b)); Z3_mk_bvsle(c, x, y) }
                Node::Ite(i, a, b) => { let (i, x, y) = (self.boolean(p, i), self.boolean(p, a), self.boolean(p, b)); Z3_mk_ite(c, i, x, y) }
                _ => { let x = self.bv(p, e); let one = self.num(1, 1); Z3_mk_eq(c, x, one) }
            }
        };
        self.bool_memo.insert(e, r);
        r
    }
    pub fn bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.bv_memo.get(&e) { return *x; }
        let c = self.ctx;
        let w = p.width(e);
        let r = unsafe {
            match p.nodes[e as usize].0.clone() {
                Node::Const(v) => self.num(v, w),
                Node::Var(v) => self.var(p, v),
                Node::Tab(v, t) => {
                    let t = &p.tabs[t as usize];
                    // identity table
                    let vw = p.vars[v as usize].width;
                    if t.iter().enumerate().all(|(i, x)| i as u64 == *x) && w >= vw {
                        let x = self.var(p, v);
                        if w > vw { Z3_mk_zero_ext(c, w - vw, x) } else { x }
                    } else {
                        // group by value
                        let mut by: Vec<(u64, Vec<(usize, usize)>)> = vec![];
                        for (lo, hi, x) in Self::runs(t) {
                            match by.iter_mut().find(|g| g.0 == x) { Some(g) => g.1.push((lo, hi)), None => by.push((x, vec![(lo, hi)])) }
                        }
                        let (last, _) = by.pop().unwrap();
                        let mut r = self.num(last as u128, w);
                        for (x, rs) in by {
                            let cs: Vec<P> = rs.into_iter().map(|(l, h)| self.range(p, v, l, h)).collect();
                            let k = Z3_mk_or(c, cs.len() as c_uint, cs.as_ptr());
                            let n = self.num(x as u128, w);
                            r = Z3_mk_ite(c, k, n, r);
                        }
                        r
                    }
                }
                Node::Bin(op @ (Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle), _, _) => {
                    let _ = op;
                    let b = self.boolean(p, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Node::Bin(op, a, b) => {
                    let (x, y) = (self.bv(p, a), self.bv(p, b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
                Node::Ite(i, a, b) => { let (i, x, y) = (self.boolean(p, i), self.bv(p, a), self.bv(p, b)); Z3_mk_ite(c, i, x, y) }
                Node::Extract(a, lo) => { let x = self.bv(p, a); Z3_mk_extract(c, lo + w - 1, lo, x) }
                Node::ZExt(a) => { let x = self.bv(p, a); Z3_mk_zero_ext(c, w - p.width(a), x) }
                Node::SExt(a) => { let x = self.bv(p, a); Z3_mk_sign_ext(c, w - p.width(a), x) }
            }
        };
        self.bv_memo.insert(e, r);
        r
    }
    fn domain(&mut self, p: &Pool, v: u32, d: &[u64; 4]) -> P {
        if let Some(x) = self.dom_memo.get(&(v, *d)) { return *x; }
        let n = p.vars[v as usize].dsize as usize;
        let t: Vec<u64> = (0..n).map(|i| (d[i / 64] >> (i % 64)) & 1).collect();
        let rs = Self::runs(&t);
        let cs: Vec<P> = rs.into_iter().filter(|r| r.2 == 1).map(|r| self.range(p, v, r.0, r.1)).collect();
        let r = unsafe { Z3_mk_or(self.ctx, cs.len() as c_uint, cs.as_ptr()) };
        self.dom_memo.insert((v, *d), r);
        r
    }
    // ---- integer encoding: sums and comparisons of machine integers over the mathematical integers ----
    // A bit-vector term is represented by an integer term congruent to it modulo 2^width with known
    // bounds; its signed/unsigned value is that term, corrected where the bounds leave the range.
    fn inum(&mut self, v: i128) -> P { let s = CString::new(v.to_string()).unwrap(); unsafe { Z3_mk_numeral(self.ctx, s.as_ptr(), self.isort) } }
    fn ivar(&mut self, v: u32) -> P {
        if let Some(x) = self.ivar_memo.get(&v) { return *x; }
        let x = unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, (1 << 20) + v as c_int), self.isort) };
        self.ivar_memo.insert(v, x);
        x
    }
    fn irange(&mut self, v: u32, lo: usize, hi: usize) -> P {
        let x = self.ivar(v);
        let (l, h) = (self.inum(lo as i128), self.inum(hi as i128));
        unsafe {
            if lo == hi { return Z3_mk_eq(self.ctx, x, l); }
            let cs = [Z3_mk_le(self.ctx, l, x), Z3_mk_le(self.ctx, x, h)];
            Z3_mk_and(self.ctx, 2, cs.as_ptr())
        }
    }
    fn iadd(&mut self, a: P, k: i128) -> P { if k == 0 { return a; } let n = self.inum(k); let xs = [a, n]; unsafe { Z3_mk_add(self.ctx, 2, xs.as_ptr()) } }
    /// bring an integer term into [lo, lo + 2^w)
    fn norm(&mut self, i: I, w: u32, lo: i128) -> Option<I> {
        let m = 1i128 << w;
        let hi = lo + m - 1;
        if i.lo >= lo && i.hi <= hi { return Some(i); }
        if i.lo < lo - 2 * m || i.hi > hi + 2 * m { return None; }
        let mut r = i.t;
        unsafe {
            let mut cases = vec![];
            let mut b = lo - 2 * m;
            while b + m - 1 <= hi + 2 * m { cases.push(b); b += m; }
            for b in cases {
                if b == lo || b + m - 1 < i.lo || b > i.hi { continue; }
                let (l, h) = (self.inum(b), self.inum(b + m - 1));
                let cs = [Z3_mk_le(self.ctx, l, i.t), Z3_mk_le(self.ctx, i.t, h)];
                let c = Z3_mk_and(self.ctx, 2, cs.as_ptr());
                let t = self.iadd(i.t, lo - b);
                r = Z3_mk_ite(self.ctx, c, t, r);
            }
        }
        Some(I { t: r, lo, hi })
    }
    fn signed(&mut self, p: &Pool, e: E) -> Option<I> { let w = p.width(e); let i = self.int(p, e)?; self.norm(i, w, -(1i128 << (w - 1))) }
    fn unsigned(&mut self, p: &Pool, e: E) -> Option<I> { let w = p.width(e); let i = self.int(p, e)?; self.norm(i, w, 0) }
    fn int(&mut self, p: &Pool, e: E) -> Option<I> {
        if let Some(x) = self.int_memo.get(&e) { return *x; }
        let r = self.int2(p, e);
        self.int_memo.insert(e, r);
        r
    }
    fn int2(&mut self, p: &Pool, e: E) -> Option<I> {
        let c = self.ctx;
        let w = p.width(e);
        if w > 90 { return None; }
        unsafe {
            Some(match p.nodes[e as usize].0.clone() {
                Node::Const(v) => { let s = sext128(v, w); I { t: self.inum(s), lo: s, hi: s } }
                Node::Var(v) => I { t: self.ivar(v), lo: -(1i128 << (w - 1)), hi: (1i128 << (w - 1)) - 1 },
                Node::Tab(v, t) => {
                    let t = &p.tabs[t as usize];
                    let x = self.ivar(v);
                    let k = t[0];
                    if t.iter().enumerate().all(|(i, y)| k.checked_add(i as u64) == Some(*y)) {
                        I { t: self.iadd(x, k as i128), lo: k as i128, hi: *t.last().unwrap() as i128 }
                    } else {
                        let mut by: Vec<(i128, Vec<(usize, usize)>)> = vec![];
                        for (lo, hi, y) in Self::runs(t) {
                            let y = sext128(y as u128, w);
                            match by.iter_mut().find(|g| g.0 == y) { Some(g) => g.1.push((lo, hi)), None => by.push((y, vec![(lo, hi)])) }
                        }
                        let (lo, hi) = (by.iter().map(|b| b.0).min().unwrap(), by.iter().map(|b| b.0).max().unwrap());
                        let (last, _) = by.pop().unwrap();
                        let mut r = self.inum(last);
                        for (y, rs) in by {
                            let cs: Vec<P> = rs.into_iter().map(|(l, h)| self.irange(v, l, h)).collect();
                            let k = Z3_mk_or(c, cs.len() as c_uint, cs.as_ptr());
                            let n = self.inum(y);
                            r = Z3_mk_ite(c, k, n, r);
                        }
                        I { t: r, lo, hi }
                    }
                }
                Node::Bin(Op::Add, a, b) => {
                    let (x, y) = (self.int(p, a)?, self.int(p, b)?);
                    let xs = [x.t, y.t];
                    I { t: Z3_mk_add(c, 2, xs.as_ptr()), lo: x.lo + y.lo, hi: x.hi + y.hi }
                }
                Node::Bin(Op::Sub, a, b) => {
                    let (x, y) = (self.int(p, a)?, self.int(p, b)?);
                    let xs = [x.t, y.t];
                    I { t: Z3_mk_sub(c, 2, xs.as_ptr()), lo: x.lo - y.hi, hi: x.hi - y.lo }
                }
                Node::Bin(Op::Mul, a, b) => {
                    let k = sext128(p.as_const(b)?, w);
                    let x = self.int(p, a)?;
                    if k.abs() > 1 << 40 || x.lo.abs() > 1 << 70 || x.hi.abs() > 1 << 70 { return None; }
                    let n = self.inum(k);
                    let xs = [n, x.t];
                    let (l, h) = (x.lo * k, x.hi * k);
                    I { t: Z3_mk_mul(c, 2, xs.as_ptr()), lo: l.min(h), hi: l.max(h) }
                }
                Node::Bin(Op::Concat, a, b) => {
                    let lw = p.width(b);
                    let (x, y) = (self.int(p, a)?, self.unsigned(p, b)?);
                    let n = self.inum(1i128 << lw);
                    let xs = [n, x.t];
                    let t = Z3_mk_mul(c, 2, xs.as_ptr());
                    let xs = [t, y.t];
                    I { t: Z3_mk_add(c, 2, xs.as_ptr()), lo: (x.lo << lw) + y.lo, hi: (x.hi << lw) + y.hi }
                }
                Node::Bin(Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle, _, _) => {
                    let b = self.ibool(p, e)?;
                    let (o, z) = (self.inum(1), self.inum(0));
                    I { t: Z3_mk_ite(c, b, o, z), lo: 0, hi: 1 }
                }
                Node::Bin(Op::And | Op::Or | Op::Xor, _, _) if w == 1 => {
                    let b = self.ibool(p, e)?;
                    let (o, z) = (self.inum(1), self.inum(0));
                    I { t: Z3_mk_ite(c, b, o, z), lo: 0, hi: 1 }
                }
                Node::Bin(..) => return None,
                Node::Ite(i, a, b) => {
                    let (i, x, y) = (self.ibool(p, i)?, self.int(p, a)?, self.int(p, b)?);
                    I { t: Z3_mk_ite(c, i, x.t, y.t), lo: x.lo.min(y.lo), hi: x.hi.max(y.hi) }
                }
                Node::Extract(a, 0) => self.int(p, a)?,
                Node::Extract(a, lo) if w == 1 && lo + 1 == p.width(a) => {
                    let x = self.signed(p, a)?;
                    let z = self.inum(0);
                    let b = Z3_mk_lt(c, x.t, z);
                    let (o, z) = (self.inum(1), self.inum(0));
                    I { t: Z3_mk_ite(c, b, o, z), lo: 0, hi: 1 }
                }
                Node::Extract(..) => return None,
                Node::ZExt(a) => self.unsigned(p, a)?,
                Node::SExt(a) => self.signed(p, a)?,
            })
        }
    }
    fn ibool(&mut self, p: &Pool, e: E) -> Option<P> {
        if let Some(x) = self.ibool_memo.get(&e) { return *x; }
        let r = self.ibool2(p, e);
        self.ibool_memo.insert(e, r);
        r
    }
    fn ibool2(&mut self, p: &Pool, e: E) -> Option<P> {
        let c = self.ctx;
        unsafe {
            Some(match p.nodes[e as usize].0.clone() {
                Node::Const(1) => Z3_mk_true(c),
                Node::Const(_) => Z3_mk_false(c),
                Node::Tab(v, t) => {
                    let rs = Self::runs(&p.tabs[t as usize]);
                    let cs: Vec<P> = rs.into_iter().filter(|r| r.2 == 1).map(|r| self.irange(v, r.0, r.1)).collect();
                    Z3_mk_or(c, cs.len() as c_uint, cs.as_ptr())
                }
                Node::Bin(Op::And, a, b) => { let xs = [self.ibool(p, a)?, self.ibool(p, b)?]; Z3_mk_and(c, 2, xs.as_ptr()) }
                Node::Bin(Op::Or, a, b) => { let xs = [self.ibool(p, a)?, self.ibool(p, b)?]; Z3_mk_or(c, 2, xs.as_ptr()) }
                Node::Bin(Op::Xor, a, b) if p.as_const(b) == Some(1) => { let x = self.ibool(p, a)?; Z3_mk_not(c, x) }
                Node::Bin(Op::Xor, a, b) => { let (x, y) = (self.ibool(p, a)?, self.ibool(p, b)?); let e = Z3_mk_eq(c, x, y); Z3_mk_not(c, e) }
                Node::Bin(Op::Eq, a, b) => {
                    if p.width(a) == 1 { let (x, y) = (self.ibool(p, a)?, self.ibool(p, b)?); Z3_mk_eq(c, x, y) }
                    else { let (x, y) = (self.signed(p, a)?, self.signed(p, b)?); Z3_mk_eq(c, x.t, y.t) }
                }
                Node::Bin(Op::Ult, a, b) => { let (x, y) = (self.unsigned(p, a)?, self.unsigned(p, b)?); Z3_mk_lt(c, x.t, y.t) }
                Node::Bin(Op::Ule, a, b) => { let (x, y) = (self.unsigned(p, a)?, self.unsigned(p, b)?); Z3_mk_le(c, x.t, y.t) }
                Node::Bin(Op::Slt, a, b) => { let (x, y) = (self.signed(p, a)?, self.signed(p, b)?); Z3_mk_lt(c, x.t, y.t) }
                Node::Bin(Op::Sle, a, b) => { let (x, y) = (self.signed(p, a)?, self.signed(p, b)?); Z3_mk_le(c, x.t, y.t) }
                Node::Ite(i, a, b) => { let (i, x, y) = (self.ibool(p, i)?, self.ibool(p, a)?, self.ibool(p, b)?); Z3_mk_ite(c, i, x, y) }
                _ => { let x = self.unsigned(p, e)?; let z = self.inum(1); Z3_mk_eq(c, x.t, z) }
            })
        }
    }
    fn check_int(&mut self, p: &Pool, cs: &[E], doms: &[(u32, [u64; 4])], vars: &[u32]) -> Option<Res> {
        let mut asserts = vec![];
        for &e in cs { match self.ibool(p, e) { Some(a) => asserts.push(a), None => { if std::env::var("SX_DEBUGINT").is_ok() { eprintln!("no integer encoding: {}", p.show(e)); } return None; } } }
        let c = self.ctx;
        unsafe {
            Z3_solver_reset(c, self.isolver);
            for (v, d) in doms {
                let n = p.vars[*v as usize].dsize as usize;
                let t: Vec<u64> = (0..n).map(|i| (d[i / 64] >> (i % 64)) & 1).collect();
                let rs: Vec<P> = Self::runs(&t).into_iter().filter(|r| r.2 == 1).map(|r| self.irange(*v, r.0, r.1)).collect();
                Z3_solver_assert(c, self.isolver, Z3_mk_or(c, rs.len() as c_uint, rs.as_ptr()));
            }
            for &v in vars {
                let vi = &p.vars[v as usize];
                if vi.dsize > 0 { continue; }
                let (w, x) = (vi.width, self.ivar(v));
                let (l, h) = (self.inum(-(1i128 << (w - 1))), self.inum((1i128 << (w - 1)) - 1));
                Z3_solver_assert(c, self.isolver, Z3_mk_le(c, l, x));
                Z3_solver_assert(c, self.isolver, Z3_mk_le(c, x, h));
            }
            for a in asserts { Z3_solver_assert(c, self.isolver, a); }
            match Z3_solver_check(c, self.isolver) {
                1 => {
                    let m = Z3_solver_get_model(c, self.isolver);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &v in vars {
                        let x = self.ivar(v);
                        let mut r: P = std::ptr::null_mut();
                        let mut u = 0i64;
                        if Z3_model_eval(c, m, x, true, &mut r) { Z3_get_numeral_int64(c, r, &mut u); }
                        let w = p.vars[v as usize].width;
                        out.push((v, (u as u64 as u128 & mask(w)) as u64));
                    }
                    Z3_model_dec_ref(c, m);
                    // the model must satisfy the bit-vector constraints
                    let mx = vars.iter().max().map_or(0, |v| *v as usize + 1);
                    let mut model = vec![0u64; mx];
                    for (v, u) in &out { model[*v as usize] = *u; }
                    let mut memo = HashMap::new();
                    for &e in cs { if p.eval(e, &model, &mut memo) != 1 { eprintln!("symex: integer model does not satisfy {}", p.show(e)); std::process::abort(); } }
                    Some(Res::Sat(out))
                }
                -1 => Some(Res::Unsat),
                _ => None,
            }
        }
    }
    /// Check the conjunction of `cs` with the domains `doms`; the model covers `vars`.
    pub fn check(&mut self, p: &Pool, cs: &[E], doms: &[(u32, [u64; 4])], vars: &[u32]) -> Res {
        let t0 = std::time::Instant::now();
        let wide = vars.iter().any(|v| { let i = &p.vars[*v as usize]; i.dsize == 0 && i.width >= 16 });
        if wide && !self.no_int {
            if let Some(r) = self.check_int(p, cs, doms, vars) {
                self.queries += 1;
                self.int_queries += 1;
                match r { Res::Sat(_) => self.sat += 1, _ => self.unsat += 1 }
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt;
                if dt > self.max_time { self.max_time = dt; }
                return r;
            }
        }
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.solver);
            for (v, d) in doms { let a = self.domain(p, *v, d); Z3_solver_assert(self.ctx, self.solver, a); }
            for &e in cs { let a = self.boolean(p, e); Z3_solver_assert(self.ctx, self.solver, a); }
            match Z3_solver_check(self.ctx, self.solver) {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for &v in vars {
                        let x = self.var(p, v);
                        let mut r: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if Z3_model_eval(self.ctx, m, x, true, &mut r) { Z3_get_numeral_uint64(self.ctx, r, &mut u); }
                        out.push((v, u));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            }
        };
        self.queries += 1;
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        r
    }
}

impl Z3 { pub fn delete(&mut self) { unsafe { Z3_del_context(self.ctx) } } }

impl Z3 { pub fn handle(&self) -> usize { self.ctx as usize } }
/// ends the query in progress, if any
pub fn interrupt(ctx: usize) { unsafe { Z3_interrupt(ctx as P) } }

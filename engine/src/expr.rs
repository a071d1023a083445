//! Hash-consed bit-vector expressions over symbolic variables.
//!
//! Expressions whose support is one variable with an enumerated domain of at most 256 values are
//! kept in canonical form as a table (`Tab`): one value per domain index.  All other expressions
//! are an ordinary DAG which is handed to Z3.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle, Concat,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Tab(u32, u32), // variable, index into tabs
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(E, u32), // expr, low bit
    ZExt(E),
    SExt(E),
}

pub struct VarInfo {
    pub width: u32,
    pub dsize: u32, // 0: no enumerated domain (raw variable)
    pub seq: u32,
}

pub struct Pool {
    pub nodes: Vec<(Node, u8)>, // node, width
    pub sup: Vec<u128>,
    pub rng: Vec<Rng>,
    cons: HashMap<(Node, u8), E>,
    pub tabs: Vec<Box<[u64]>>,
    tabcons: HashMap<(u32, u8, Box<[u64]>), E>,
    pub vars: Vec<VarInfo>,
    varcons: HashMap<(u32, u32, u32), u32>,
    opcache: HashMap<(u8, E, E, u32), E>,
    itecache: HashMap<(E, E, E), E>,
}

/// Bounds of the signed and of the unsigned value (path-insensitive); widths up to 100 bits.
#[derive(Clone, Copy, Debug)]
pub struct Rng { pub sl: i128, pub sh: i128, pub ul: i128, pub uh: i128 }
impl Rng {
    pub fn full(w: u32) -> Rng { let w = w.min(100); Rng { sl: -(1i128 << (w - 1)), sh: (1i128 << (w - 1)) - 1, ul: 0, uh: (1i128 << w) - 1 } }
    /// from a signed and an unsigned interval known to hold, each improving the other
    fn tidy(mut self, w: u32) -> Rng {
        let f = Rng::full(w);
        self.sl = self.sl.max(f.sl); self.sh = self.sh.min(f.sh); self.ul = self.ul.max(f.ul); self.uh = self.uh.min(f.uh);
        if self.sl >= 0 { self.ul = self.ul.max(self.sl); self.uh = self.uh.min(self.sh); }
        if self.uh <= f.sh { self.sl = self.sl.max(self.ul); self.sh = self.sh.min(self.uh); }
        self
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

pub fn bin_eval(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        Op::Concat => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Pool {
        let mut p = Pool {
            nodes: vec![], sup: vec![], rng: vec![], cons: HashMap::new(), tabs: vec![], tabcons: HashMap::new(),
            vars: vec![], varcons: HashMap::new(), opcache: HashMap::new(), itecache: HashMap::new(),
        };
        p.cst(0, 1); // id 0 is reserved so that 0 can mean "no expression"
        p
    }
    #[inline]
    pub fn width(&self, e: E) -> u32 { self.nodes[e as usize].1 as u32 }
    #[inline]
    pub fn support(&self, e: E) -> u128 { self.sup[e as usize] }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize].0 { Some(c) } else { None }
    }
    #[inline]
    pub fn as_tab(&self, e: E) -> Option<(u32, &[u64])> {
        if let Node::Tab(v, t) = self.nodes[e as usize].0 { Some((v, &self.tabs[t as usize])) } else { None }
    }
    fn mk(&mut self, n: Node, w: u32) -> E {
        let key = (n, w as u8);
        if let Some(&e) = self.cons.get(&key) { return e; }
        let s = match &key.0 {
            Node::Const(_) => 0,
            Node::Var(v) => 1u128 << v,
            Node::Tab(v, _) => 1u128 << v,
            Node::Bin(_, a, b) => self.sup[*a as usize] | self.sup[*b as usize],
            Node::Ite(c, a, b) => self.sup[*c as usize] | self.sup[*a as usize] | self.sup[*b as usize],
            Node::Extract(a, _) | Node::ZExt(a) | Node::SExt(a) => self.sup[*a as usize],
        };
        let r = self.range_of(&key.0, w);
        let e = self.nodes.len() as E;
        self.rng.push(r);
        self.nodes.push(key.clone());
        self.sup.push(s);
        self.cons.insert(key, e);
        e
    }
    fn range_of(&self, n: &Node, w: u32) -> Rng {
        let f = Rng::full(w);
        if w > 100 { return f; }
        let g = |e: E| self.rng[e as usize];
        let ok = |e: E| self.width(e) <= 100;
        // interval of a mathematical result, kept where it does not wrap
        let fit = |sl: i128, sh: i128, ul: i128, uh: i128| {
            let mut r = f;
            if sl >= f.sl && sh <= f.sh { r.sl = sl; r.sh = sh; }
            if ul >= 0 && uh <= f.uh { r.ul = ul; r.uh = uh; }
            r.tidy(w)
        };
        match n {
            Node::Const(c) => { let s = sext128(*c, w); Rng { sl: s, sh: s, ul: *c as i128, uh: *c as i128 } }
            Node::Var(_) => f,
            Node::Tab(_, t) => {
                let t = &self.tabs[*t as usize];
                let mut r = Rng { sl: i128::MAX, sh: i128::MIN, ul: i128::MAX, uh: i128::MIN };
                for x in t.iter() {
                    let (u, s) = (*x as i128, sext128(*x as u128, w));
                    r.sl = r.sl.min(s); r.sh = r.sh.max(s); r.ul = r.ul.min(u); r.uh = r.uh.max(u);
                }
                r
            }
            Node::Bin(op, a, b) if ok(*a) && ok(*b) => {
                let (x, y) = (g(*a), g(*b));
                match op {
                    Op::Add => fit(x.sl + y.sl, x.sh + y.sh, x.ul + y.ul, x.uh + y.uh),
                    Op::Sub => fit(x.sl - y.sh, x.sh - y.sl, x.ul - y.uh, x.uh - y.ul),
                    Op::Mul if w <= 64 => {
                        let c = [x.sl * y.sl, x.sl * y.sh, x.sh * y.sl, x.sh * y.sh];
                        fit(*c.iter().min().unwrap(), *c.iter().max().unwrap(), x.ul.saturating_mul(y.ul), x.uh.saturating_mul(y.uh))
                    }
                    Op::And => Rng { uh: x.uh.min(y.uh), ..f }.tidy(w),
                    Op::UDiv if y.ul > 0 => Rng { ul: x.ul / y.uh, uh: x.uh / y.ul, ..f }.tidy(w),
                    Op::URem if y.ul > 0 => Rng { uh: x.uh.min(y.uh - 1), ..f }.tidy(w),
                    Op::LShr => Rng { uh: x.uh, ..f }.tidy(w),
                    Op::Concat => {
                        let bw = self.width(*b);
                        Rng { sl: (x.sl << bw) + y.ul, sh: (x.sh << bw) + y.uh, ul: (x.ul << bw) + y.ul, uh: (x.uh << bw) + y.uh }.tidy(w)
                    }
                    _ => f,
                }
            }
            Node::Ite(_, a, b) => { let (x, y) = (g(*a), g(*b)); Rng { sl: x.sl.min(y.sl), sh: x.sh.max(y.sh), ul: x.ul.min(y.ul), uh: x.uh.max(y.uh) } }
            Node::ZExt(a) => { let x = g(*a); Rng { sl: x.ul, sh: x.uh, ul: x.ul, uh: x.uh } }
            Node::SExt(a) => { let x = g(*a); Rng { sl: x.sl, sh: x.sh, ..f }.tidy(w) }
            Node::Extract(a, 0) if ok(*a) => { let x = g(*a); fit(x.sl, x.sh, x.ul, x.uh) }
            _ => f,
        }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E { self.mk(Node::Const(v & mask(w)), w) }

    /// The `seq`-th variable of a path, identified by its position, width and domain size.
    pub fn var(&mut self, seq: u32, width: u32, dsize: u32) -> E {
        let id = match self.varcons.get(&(seq, width, dsize)) {
            Some(&id) => id,
            None => {
                let id = self.vars.len() as u32;
                if id >= 128 { panic!("symex: more than 128 symbolic variables"); }
                self.vars.push(VarInfo { width, dsize, seq });
                self.varcons.insert((seq, width, dsize), id);
                id
            }
        };
        if dsize > 0 {
            let t: Vec<u64> = (0..dsize as u64).collect();
            self.tab(id, t, width)
        } else {
            self.mk(Node::Var(id), width)
        }
    }
    pub fn tab(&mut self, v: u32, t: Vec<u64>, w: u32) -> E {
        if t.iter().all(|x| *x == t[0]) { return self.cst(t[0] as u128, w); }
        let key = (v, w as u8, t.into_boxed_slice());
        if let Some(&e) = self.tabcons.get(&key) { return e; }
        let ti = self.tabs.len() as u32;
        self.tabs.push(key.2.clone());
        let e = self.mk(Node::Tab(v, ti), w);
        self.tabcons.insert(key, e);
        e
    }
    /// value of `e` (const or table over `v`) at domain index `i`
    #[inline]
    fn at(&self, e: E, i: usize) -> u128 {
        match &self.nodes[e as usize].0 {
            Node::Const(c) => *c,
            Node::Tab(_, t) => self.tabs[*t as usize][i] as u128,
            _ => unreachable!(),
        }
    }
    /// If `a` and `b` are constants/tables over at most one common variable: that variable.
    fn common_tab(&self, es: &[E]) -> Option<u32> {
        let mut var = None;
        for &e in es {
            match self.nodes[e as usize].0 {
                Node::Const(c) => { if c > u64::MAX as u128 { return None; } }
                Node::Tab(v, _) => match var { None => var = Some(v), Some(x) if x == v => {} _ => return None },
                _ => return None,
            }
        }
        var
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.width(a);
        if op != Op::Concat { debug_assert_eq!(w, self.width(b)); }
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            Op::Concat => w + self.width(b),
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = if op == Op::Concat { (x << self.width(b)) | y } else { bin_eval(op, x, y, w) };
            return self.cst(v, rw);
        }
        if let Some(&e) = self.opcache.get(&(op as u8, a, b, 0)) { return e; }
        let e = self.bin2(op, a, b, w, rw);
        self.opcache.insert((op as u8, a, b, 0), e);
        e
    }

    fn bin2(&mut self, op: Op, a: E, b: E, w: u32, rw: u32) -> E {
        if rw <= 64 && w <= 64 {
            if let Some(v) = self.common_tab(&[a, b]) {
                let n = self.vars[v as usize].dsize as usize;
                let bw = self.width(b);
                let t: Vec<u64> = (0..n).map(|i| {
                    let (x, y) = (self.at(a, i), self.at(b, i));
                    (if op == Op::Concat { (x << bw) | y } else { bin_eval(op, x, y, w) }) as u64
                }).collect();
                return self.tab(v, t, rw);
            }
        }
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        if w <= 100 {
            let (x, y) = (self.rng[a as usize], self.rng[b as usize]);
            let r = match op {
                Op::Ult => if x.uh < y.ul { Some(1) } else if x.ul >= y.uh { Some(0) } else { None },
                Op::Ule => if x.uh <= y.ul { Some(1) } else if x.ul > y.uh { Some(0) } else { None },
                Op::Slt => if x.sh < y.sl { Some(1) } else if x.sl >= y.sh { Some(0) } else { None },
                Op::Sle => if x.sh <= y.sl { Some(1) } else if x.sl > y.sh { Some(0) } else { None },
                Op::Eq => if x.uh < y.ul || y.uh < x.ul || x.sh < y.sl || y.sh < x.sl { Some(0) } else { None },
                _ => None,
            };
            if let Some(r) = r { return self.cst(r, 1); }
        }
        match op {
            Op::Add => {
                if ca == Some(0) { return b; }
                if cb == Some(0) { return a; }
                if ca.is_some() { return self.bin(Op::Add, b, a); }
                if let (Some(c), Node::Bin(Op::Add, x, y)) = (cb, self.nodes[a as usize].0.clone()) {
                    if let Some(d) = self.as_const(y) { let k = self.cst(c.wrapping_add(d), w); return self.bin(Op::Add, x, k); }
                }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let Some(c) = cb { let k = self.cst((!c).wrapping_add(1) & m, w); return self.bin(Op::Add, a, k); }
            }
            Op::Mul => {
                if ca == Some(1) { return b; }
                if cb == Some(1) { return a; }
                if ca == Some(0) || cb == Some(0) { return self.cst(0, w); }
                if ca.is_some() { return self.bin(Op::Mul, b, a); }
            }
            Op::And => {
                if ca.is_some() { return self.bin(Op::And, b, a); }
                if cb == Some(0) { return self.cst(0, w); }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if let Some(c) = cb {
                    // zext(x) & mask covering x
                    if let Node::ZExt(x) = self.nodes[a as usize].0 {
                        let xw = self.width(x);
                        if c & mask(xw) == mask(xw) { return a; }
                        let k = self.cst(c, xw);
                        let r = self.bin(Op::And, x, k);
                        return self.zext(r, w);
                    }
                    // low mask: extract + zext
                    if c != 0 && (c & (c + 1)) == 0 {
                        let k = 128 - c.leading_zeros();
                        if k < w { let x = self.extract(a, 0, k); return self.zext(x, w); }
                    }
                    if let Node::Bin(Op::Concat, h, l) = self.nodes[a as usize].0.clone() {
                        let lw = self.width(l);
                        let (kh, kl) = (self.cst(c >> lw, w - lw), self.cst(c & mask(lw), lw));
                        let (x, y) = (self.bin(Op::And, h, kh), self.bin(Op::And, l, kl));
                        return self.bin(Op::Concat, x, y);
                    }
                }
            }
            Op::Or => {
                if ca.is_some() { return self.bin(Op::Or, b, a); }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if a == b { return a; }
                if let Some(r) = self.or_disjoint(a, b, w) { return r; }
            }
            Op::Xor => {
                if ca.is_some() { return self.bin(Op::Xor, b, a); }
                if cb == Some(0) { return a; }
                if a == b { return self.cst(0, w); }
                if let (Some(c), Node::Bin(Op::Xor, x, y)) = (cb, self.nodes[a as usize].0.clone()) {
                    if let Some(d) = self.as_const(y) { let k = self.cst(c ^ d, w); return self.bin(Op::Xor, x, k); }
                }
                if w == 1 && cb == Some(1) {
                    match self.nodes[a as usize].0.clone() {
                        Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                        Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                        Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                        Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                        _ => {}
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.cst(0, w); }
                    let x = self.extract(a, 0, w - c as u32);
                    let z = self.cst(0, c as u32);
                    return self.bin(Op::Concat, x, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c >= w as u128 { return self.cst(0, w); }
                    let x = self.extract(a, c as u32, w - c as u32);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(c) = cb {
                    if c < w as u128 { let x = self.extract(a, c as u32, w - c as u32); return self.sext(x, w); }
                }
            }
            Op::Eq => {
                if a == b { return self.cst(1, 1); }
                if ca.is_some() { return self.bin(Op::Eq, b, a); }
                if let Some(c) = cb {
                    if w == 1 { return if c == 1 { a } else { let k = self.cst(1, 1); self.bin(Op::Xor, a, k) }; }
                    match self.nodes[a as usize].0.clone() {
                        Node::ZExt(x) => {
                            let xw = self.width(x);
                            if c > mask(xw) { return self.cst(0, 1); }
                            let k = self.cst(c, xw);
                            return self.bin(Op::Eq, x, k);
                        }
                        Node::SExt(x) => {
                            let xw = self.width(x);
                            let k = c & mask(xw);
                            if (sext128(k, xw) as u128) & m != c { return self.cst(0, 1); }
                            let k = self.cst(k, xw);
                            return self.bin(Op::Eq, x, k);
                        }
                        Node::Bin(Op::Concat, h, l) => {
                            let lw = self.width(l);
                            let (kh, kl) = (self.cst(c >> lw, w - lw), self.cst(c & mask(lw), lw));
                            let (x, y) = (self.bin(Op::Eq, h, kh), self.bin(Op::Eq, l, kl));
                            return self.bin(Op::And, x, y);
                        }
                        Node::Bin(Op::Add, x, y) => if let Some(d) = self.as_const(y) {
                            let k = self.cst(c.wrapping_sub(d), w); return self.bin(Op::Eq, x, k);
                        },
                        Node::Bin(Op::Xor, x, y) => if let Some(d) = self.as_const(y) {
                            let k = self.cst(c ^ d, w); return self.bin(Op::Eq, x, k);
                        },
                        Node::Ite(i, x, y) => {
                            let (cx, cy) = (self.as_const(x), self.as_const(y));
                            if cx.is_some() || cy.is_some() {
                                let k = b;
                                let ex = self.bin(Op::Eq, x, k);
                                let ey = self.bin(Op::Eq, y, k);
                                return self.ite(i, ex, ey);
                            }
                        }
                        _ => {}
                    }
                }
                if let (Node::ZExt(x), Node::ZExt(y)) = (self.nodes[a as usize].0.clone(), self.nodes[b as usize].0.clone()) {
                    if self.width(x) == self.width(y) { return self.bin(Op::Eq, x, y); }
                }
                if a > b && cb.is_none() { return self.bin(Op::Eq, b, a); }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) { return self.cst(0, 1); }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                if let Some(r) = self.cmp_ext(op, a, b, w) { return r; }
            }
            Op::Ule => {
                if a == b || cb == Some(m) || ca == Some(0) { return self.cst(1, 1); }
                if let Some(r) = self.cmp_ext(op, a, b, w) { return r; }
            }
            Op::Slt => {
                if a == b { return self.cst(0, 1); }
                if let Some(r) = self.cmp_ext(op, a, b, w) { return r; }
            }
            Op::Sle => {
                if a == b { return self.cst(1, 1); }
                if let Some(r) = self.cmp_ext(op, a, b, w) { return r; }
            }
            Op::UDiv => { if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.cst(c.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, k); } } }
            Op::URem => { if let Some(c) = cb { if c.is_power_of_two() { let k = self.cst(c - 1, w); return self.bin(Op::And, a, k); } } }
            Op::SDiv | Op::SRem => {}
            Op::Concat => {
                // copies of the sign bit above a value: a sign extension
                if let Node::SExt(x) = self.nodes[a as usize].0.clone() {
                    if self.width(x) == 1 {
                        let wb = self.width(b);
                        if self.nodes[b as usize].0 == Node::SExt(x) || self.extract(b, wb - 1, 1) == x { return self.sext(b, rw); }
                    }
                }
                let bw = self.width(b);
                if ca == Some(0) { return self.zext(b, rw); }
                // concat(extract(x,i+n), extract(x,i)) = extract(x,i)
                if let (Node::Extract(x, lo1), Node::Extract(y, lo2)) = (self.nodes[a as usize].0.clone(), self.nodes[b as usize].0.clone()) {
                    if x == y && lo1 == lo2 + bw { return self.extract(x, lo2, rw); }
                }
                match (self.nodes[a as usize].0.clone(), self.nodes[b as usize].0.clone()) {
                    (Node::Ite(c, x, y), Node::Ite(d, p, q)) if c == d => {
                        let (u, v) = (self.bin(Op::Concat, x, p), self.bin(Op::Concat, y, q));
                        return self.ite(c, u, v);
                    }
                    (Node::Bin(o @ (Op::Or | Op::Xor), x, y), Node::Bin(o2, p, q)) if o == o2 && self.as_const(y).is_some() && self.as_const(q).is_some() => {
                        let (u, v) = (self.bin(Op::Concat, x, p), self.bin(Op::Concat, y, q));
                        return self.bin(o, u, v);
                    }
                    _ => {}
                }
                // concat(h, concat(m, l)) -> concat(concat(h,m), l) if h,m merge
                if let Node::Bin(Op::Concat, x, y) = self.nodes[b as usize].0.clone() {
                    let hm = self.bin(Op::Concat, a, x);
                    return self.bin(Op::Concat, hm, y);
                }
                // concat(ext(x).., x low): sign/zero extension recombination
                if let (Node::Bin(Op::Concat, x, y), _) = (self.nodes[a as usize].0.clone(), 0) {
                    if let (Node::Extract(p, lo1), Node::Extract(q, lo2)) = (self.nodes[y as usize].0.clone(), self.nodes[b as usize].0.clone()) {
                        if p == q && lo1 == lo2 + bw {
                            let yw = self.width(y);
                            let m = self.extract(p, lo2, yw + bw);
                            return self.mk(Node::Bin(Op::Concat, x, m), rw);
                        }
                    }
                    if let (Some(c), Some(d)) = (self.as_const(y), cb) {
                        let yw = self.width(y);
                        let k = self.cst((c << bw) | d, yw + bw);
                        return self.mk(Node::Bin(Op::Concat, x, k), rw);
                    }
                    if let Some(v) = self.common_tab(&[y, b]) {
                        let yw = self.width(y);
                        if yw + bw <= 64 && (self.as_tab(y).is_some() && self.as_tab(b).is_some()) {
                            let n = self.vars[v as usize].dsize as usize;
                            let t: Vec<u64> = (0..n).map(|i| ((self.at(y, i) << bw) | self.at(b, i)) as u64).collect();
                            let k = self.tab(v, t, yw + bw);
                            return self.mk(Node::Bin(Op::Concat, x, k), rw);
                        }
                    }
                }
                if let (Node::ZExt(x), Some(_)) = (self.nodes[a as usize].0.clone(), cb) {
                    let xb = self.bin(Op::Concat, x, b);
                    return self.zext(xb, rw);
                }
            }
        }
        self.mk(Node::Bin(op, a, b), rw)
    }

    /// known-zero mask analysis for `or` used as concatenation
    fn known_zero(&self, e: E, depth: u32) -> u128 {
        let w = self.width(e);
        let m = mask(w);
        match &self.nodes[e as usize].0 {
            Node::Const(c) => !c & m,
            Node::Tab(_, t) => { let mut o = 0u64; for x in self.tabs[*t as usize].iter() { o |= x; } !(o as u128) & m }
            Node::ZExt(x) => {
                let xw = self.width(*x);
                (m & !mask(xw)) | if depth > 0 { self.known_zero(*x, depth - 1) } else { 0 }
            }
            Node::Bin(Op::Concat, h, l) if depth > 0 => {
                let lw = self.width(*l);
                (self.known_zero(*h, depth - 1) << lw) | self.known_zero(*l, depth - 1)
            }
            Node::Bin(Op::And, a, b) if depth > 0 => self.known_zero(*a, depth - 1) | self.known_zero(*b, depth - 1),
            Node::Bin(Op::Or, a, b) if depth > 0 => self.known_zero(*a, depth - 1) & self.known_zero(*b, depth - 1),
            Node::Ite(_, a, b) if depth > 0 => self.known_zero(*a, depth - 1) & self.known_zero(*b, depth - 1),
            _ => 0,
        }
    }
    fn or_disjoint(&mut self, a: E, b: E, w: u32) -> Option<E> {
        // x = concat(h, 0_k) (or shifted) | zext(l) -> concat(h, l)
        for (x, y) in [(a, b), (b, a)] {
            let (zx, zy) = (self.known_zero(x, 4), self.known_zero(y, 4));
            let k = (!zx).trailing_zeros().min(w); // low k bits of x are zero
            if k == 0 || k >= w { continue; }
            if zy >> k == mask(w - k) {
                // y fits in the low k bits
                let h = self.extract(x, k, w - k);
                let l = self.extract(y, 0, k);
                return Some(self.bin(Op::Concat, h, l));
            }
        }
        None
    }

    fn cmp_ext(&mut self, op: Op, a: E, b: E, w: u32) -> Option<E> {
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let na = self.nodes[a as usize].0.clone();
        let nb = self.nodes[b as usize].0.clone();
        match (&na, &nb) {
            (Node::ZExt(x), Node::ZExt(y)) if self.width(*x) == self.width(*y) => {
                let o = match op { Op::Slt => Op::Ult, Op::Sle => Op::Ule, o => o };
                return Some(self.bin(o, *x, *y));
            }
            (Node::SExt(x), Node::SExt(y)) if self.width(*x) == self.width(*y) => {
                return Some(self.bin(op, *x, *y));
            }
            (Node::ZExt(x), _) if cb.is_some() && matches!(op, Op::Ult | Op::Ule) => {
                let xw = self.width(*x);
                let c = cb.unwrap();
                if c > mask(xw) { return Some(self.cst(1, 1)); }
                let k = self.cst(c, xw);
                return Some(self.bin(op, *x, k));
            }
            (_, Node::ZExt(x)) if ca.is_some() && matches!(op, Op::Ult | Op::Ule) => {
                let xw = self.width(*x);
                let c = ca.unwrap();
                if c > mask(xw) { return Some(self.cst(0, 1)); }
                let k = self.cst(c, xw);
                return Some(self.bin(op, k, *x));
            }
            (Node::ZExt(x), _) if cb.is_some() && matches!(op, Op::Slt | Op::Sle) => {
                let xw = self.width(*x);
                let c = sext128(cb.unwrap(), w);
                if c < 0 { return Some(self.cst(0, 1)); }
                if c as u128 > mask(xw) { return Some(self.cst(1, 1)); }
                let k = self.cst(c as u128, xw);
                let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                return Some(self.bin(o, *x, k));
            }
            (_, Node::ZExt(x)) if ca.is_some() && matches!(op, Op::Slt | Op::Sle) => {
                let xw = self.width(*x);
                let c = sext128(ca.unwrap(), w);
                if c < 0 { return Some(self.cst(1, 1)); }
                if c as u128 > mask(xw) { return Some(self.cst(0, 1)); }
                let k = self.cst(c as u128, xw);
                let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                return Some(self.bin(o, k, *x));
            }
            (Node::Ite(i, x, y), _) if cb.is_some() && self.as_const(*x).is_some() && self.as_const(*y).is_some() => {
                let (ex, ey) = (self.bin(op, *x, b), self.bin(op, *y, b));
                return Some(self.ite(*i, ex, ey));
            }
            (_, Node::Ite(i, x, y)) if ca.is_some() && self.as_const(*x).is_some() && self.as_const(*y).is_some() => {
                let (ex, ey) = (self.bin(op, a, *x), self.bin(op, a, *y));
                return Some(self.ite(*i, ex, ey));
            }
            _ => {}
        }
        None
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        let k = self.cst(u128::MAX, w);
        self.bin(Op::Xor, a, k)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.as_const(c) { return if v & 1 == 1 { a } else { b }; }
        if a == b { return a; }
        if let Some(&e) = self.itecache.get(&(c, a, b)) { return e; }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let r = 'r: {
            if w <= 64 {
                if let Some(v) = self.common_tab(&[c, a, b]) {
                    let n = self.vars[v as usize].dsize as usize;
                    let t: Vec<u64> = (0..n).map(|i| if self.at(c, i) == 1 { self.at(a, i) as u64 } else { self.at(b, i) as u64 }).collect();
                    break 'r self.tab(v, t, w);
                }
            }
            if w == 1 {
                let (ca, cb) = (self.as_const(a), self.as_const(b));
                if ca == Some(1) && cb == Some(0) { break 'r c; }
                if ca == Some(0) && cb == Some(1) { break 'r self.not(c); }
                if ca == Some(1) { break 'r self.bin(Op::Or, c, b); }
                if ca == Some(0) { let n = self.not(c); break 'r self.bin(Op::And, n, b); }
                if cb == Some(0) { break 'r self.bin(Op::And, c, a); }
                if cb == Some(1) { let n = self.not(c); break 'r self.bin(Op::Or, n, a); }
            }
            // negated condition
            if let Node::Bin(Op::Xor, x, k) = self.nodes[c as usize].0.clone() {
                if self.as_const(k) == Some(1) { break 'r self.ite(x, b, a); }
            }
            self.mk(Node::Ite(c, a, b), w)
        };
        self.itecache.insert((c, a, b), r);
        r
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.width(a);
        debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
        if lo == 0 && w == aw { return a; }
        if let Some(c) = self.as_const(a) { return self.cst(c >> lo, w); }
        if let Some(&e) = self.opcache.get(&(100, a, lo, w)) { return e; }
        let r = match self.nodes[a as usize].0.clone() {
            Node::Tab(v, t) => {
                let t: Vec<u64> = self.tabs[t as usize].iter().map(|x| ((*x as u128 >> lo) & mask(w)) as u64).collect();
                self.tab(v, t, w)
            }
            Node::Extract(x, l2) => self.extract(x, l2 + lo, w),
            Node::ZExt(x) => {
                let xw = self.width(x);
                if lo >= xw { self.cst(0, w) }
                else if lo + w <= xw { self.extract(x, lo, w) }
                else { let y = self.extract(x, lo, xw - lo); self.zext(y, w) }
            }
            Node::SExt(x) => {
                let xw = self.width(x);
                if lo + w <= xw { self.extract(x, lo, w) }
                else if lo < xw { let y = self.extract(x, lo, xw - lo); self.sext(y, w) }
                else { let y = self.extract(x, xw - 1, 1); self.sext(y, w) }
            }
            Node::Bin(Op::Concat, h, l) => {
                let lw = self.width(l);
                if lo >= lw { self.extract(h, lo - lw, w) }
                else if lo + w <= lw { self.extract(l, lo, w) }
                else {
                    let x = self.extract(h, 0, lo + w - lw);
                    let y = self.extract(l, lo, lw - lo);
                    self.bin(Op::Concat, x, y)
                }
            }
            Node::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let (x2, y2) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.ite(c, x2, y2)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) if self.as_const(y).is_some() => {
                let (x2, y2) = (self.extract(x, lo, w), self.extract(y, lo, w));
                self.bin(op, x2, y2)
            }
            _ => self.mk(Node::Extract(a, lo), w),
        };
        self.opcache.insert((100, a, lo, w), r);
        r
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.cst(c, w); }
        match self.nodes[a as usize].0.clone() {
            Node::Tab(v, t) if w <= 64 => { let t = self.tabs[t as usize].to_vec(); self.tab(v, t, w) }
            Node::ZExt(x) => self.zext(x, w),
            Node::Bin(op @ (Op::Add | Op::Sub), x, y) if w <= 100 && self.no_wrap(op, x, y, aw, false) => {
                let (x, y) = (self.zext(x, w), self.zext(y, w));
                self.bin(op, x, y)
            }
            _ => self.mk(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.width(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.cst(sext128(c, aw) as u128, w); }
        match self.nodes[a as usize].0.clone() {
            Node::Tab(v, t) if w <= 64 => {
                let t = self.tabs[t as usize].iter().map(|x| (sext128(*x as u128, aw) as u128 & mask(w)) as u64).collect();
                self.tab(v, t, w)
            }
            Node::ZExt(x) => self.zext(x, w),
            Node::SExt(x) => self.sext(x, w),
            Node::Bin(op @ (Op::Add | Op::Sub), x, y) if w <= 100 && self.no_wrap(op, x, y, aw, true) => {
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                self.bin(op, x, y)
            }
            _ => self.mk(Node::SExt(a), w),
        }
    }

    fn no_wrap(&self, op: Op, a: E, b: E, w: u32, signed: bool) -> bool {
        let (x, y, f) = (self.rng[a as usize], self.rng[b as usize], Rng::full(w));
        match (op, signed) {
            (Op::Add, true) => x.sl + y.sl >= f.sl && x.sh + y.sh <= f.sh,
            (Op::Sub, true) => x.sl - y.sh >= f.sl && x.sh - y.sl <= f.sh,
            (Op::Add, false) => x.uh + y.uh <= f.uh,
            (Op::Sub, false) => x.ul - y.uh >= 0,
            _ => false,
        }
    }

    /// Evaluate under a model: one value per variable id.
    pub fn eval(&self, e: E, model: &[u64], memo: &mut HashMap<E, u128>) -> u128 {
        match &self.nodes[e as usize].0 {
            Node::Const(c) => return *c,
            Node::Var(v) => return model.get(*v as usize).copied().unwrap_or(0) as u128,
            Node::Tab(v, t) => {
                let i = model.get(*v as usize).copied().unwrap_or(0) as usize;
                return self.tabs[*t as usize][i] as u128;
            }
            _ => {}
        }
        if let Some(v) = memo.get(&e) { return *v; }
        let w = self.width(e);
        let r = match self.nodes[e as usize].0.clone() {
            Node::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                // short cuts keep long and/or chains cheap
                if op == Op::And && x == 0 { 0 } else {
                    let y = self.eval(b, model, memo);
                    if op == Op::Concat { (x << self.width(b)) | y } else { bin_eval(op, x, y, self.width(a)) }
                }
            }
            Node::Ite(c, a, b) => if self.eval(c, model, memo) == 1 { self.eval(a, model, memo) } else { self.eval(b, model, memo) },
            Node::Extract(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            Node::ZExt(a) => self.eval(a, model, memo),
            Node::SExt(a) => { let aw = self.width(a); (sext128(self.eval(a, model, memo), aw) as u128) & mask(w) }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }

    pub fn show(&self, e: E) -> String { self.show_d(e, 6) }
    fn show_d(&self, e: E, d: u32) -> String {
        if d == 0 { return "..".into(); }
        match &self.nodes[e as usize].0 {
            Node::Const(c) => format!("{}:{}", c, self.width(e)),
            Node::Var(v) => format!("v{}", v),
            Node::Tab(v, t) => { let t = &self.tabs[*t as usize]; if t.len() <= 8 { format!("t{}{:?}", v, t) } else { format!("t{}[{:?}..]", v, &t[..8]) } }
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show_d(*c, d - 1), self.show_d(*a, d - 1), self.show_d(*b, d - 1)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show_d(*a, d - 1), lo, self.width(e)),
            Node::ZExt(a) => format!("(zx{} {})", self.width(e), self.show_d(*a, d - 1)),
            Node::SExt(a) => format!("(sx{} {})", self.width(e), self.show_d(*a, d - 1)),
        }
    }
}

//! The symbolic interpreter.
use crate::expr::Op as O;
use crate::expr::*;
use crate::ll::*;
use crate::state::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub type Builtin = fn(&mut Engine, &mut State, &[V], &Ty, &[Ty]) -> R<V>;

pub struct Config {
    pub max_steps: u64,
    pub rlimit: u32,
    pub max_enum: usize,
    pub panic_ok: bool,
    /// run with these inputs instead of symbolic ones
    pub inputs: Option<Vec<u64>>,
}

pub struct Engine {
    pub m: &'static Module,
    pub p: Pool,
    pub z: Z3,
    pub cfg: Config,
    funcs: Vec<Option<&'static Func>>,
    pub builtins: Vec<Option<Builtin>>,
    cglob: HashMap<u32, Rc<Obj>>,
    dom_intern: HashMap<Vec<[u64; 4]>, u32>,
    simp_memo: HashMap<(E, u32), E>,
    qcache: HashMap<(Vec<E>, Vec<(u32, [u64; 4])>), Option<Vec<(u32, u64)>>>,
    pub exec_blocks: HashSet<(u32, u32)>,
    pub total_steps: u64,
    pub total_forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub trace: bool,
    covers: Vec<String>,
}

pub fn to_lin(v: &V) -> Option<u64> { if let V::C(c) = v { Some(*c) } else { None } }

impl Engine {
    pub fn new(m: &'static Module, cfg: Config) -> Engine {
        let n = m.funcs.len();
        let mut e = Engine { m, p: Pool::new(), z: Z3::new(cfg.rlimit), cfg, funcs: vec![None; n], builtins: vec![None; n],
            cglob: HashMap::new(), dom_intern: HashMap::new(), simp_memo: HashMap::new(), qcache: HashMap::new(), exec_blocks: HashSet::new(),
            total_steps: 0, total_forks: 0, asserts: 0, asserts_sym: 0, trace: std::env::var("SX_TRACE").is_ok(), covers: vec![] };
        for i in 0..n {
            e.builtins[i] = crate::builtins::lookup(&m.funcs[i].name, m.funcs[i].body.is_some());
        }
        e
    }
    pub fn cover_id(&mut self, s: &str) -> u32 {
        if let Some(i) = self.covers.iter().position(|x| x == s) { return i as u32; }
        self.covers.push(s.to_string());
        self.covers.len() as u32 - 1
    }
    pub fn cover_name(&self, i: u32) -> String { self.covers[i as usize].clone() }
    pub fn func(&mut self, i: u32) -> R<&'static Func> {
        if let Some(f) = self.funcs[i as usize] { return Ok(f); }
        if self.m.funcs[i as usize].body.is_none() {
            return Err(Stop::Inconclusive(format!("call of external function {}", self.m.funcs[i as usize].name)));
        }
        let f: &'static Func = Box::leak(Box::new(self.m.parse_func(i)));
        self.funcs[i as usize] = Some(f);
        Ok(f)
    }
    pub fn start(&mut self, name: &str) -> State {
        let fi = *self.m.fnames.get(name).unwrap_or_else(|| panic!("symex: no function {}", name));
        let f = match self.func(fi) { Ok(f) => f, Err(_) => panic!("symex: {} has no body", name) };
        let mut st = State::new();
        st.frames.push(Rc::new(Frame { func: f, fi, regs: vec![V::C(0); f.nregs as usize], block: 0, ip: 0, ret: None, allocas: vec![] }));
        self.exec_blocks.insert((fi, 0));
        st
    }

    // ---- expressions under the state's domains ----------------------------------------------
    pub fn e_of(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.p.cst(*c as u128, w),
            V::S(e) => { debug_assert_eq!(self.p.width(*e), w); *e }
            V::A(_) => panic!("symex: aggregate used as scalar"),
        }
    }
    pub fn v_of(&self, e: E) -> V {
        if self.p.width(e) <= 64 { if let Some(c) = self.p.as_const(e) { return V::C(c as u64); } }
        V::S(e)
    }
    fn dom_id(&mut self, st: &mut State) -> u32 {
        if st.dom_id == 0 {
            let n = self.dom_intern.len() as u32 + 1;
            st.dom_id = *self.dom_intern.entry(st.doms.clone()).or_insert(n);
        }
        st.dom_id
    }
    /// if table `e` has a single value on its variable's domain: that value
    fn tab_const(&self, st: &State, e: E) -> Option<u64> {
        let (v, t) = self.p.as_tab(e)?;
        let d = st.doms[v as usize];
        let mut it = dom_iter(d);
        let f = t[it.next()?];
        for i in it { if t[i] != f { return None; } }
        Some(f)
    }
    pub fn touch(&mut self, st: &mut State, e: E) -> V {
        if let Some(c) = self.p.as_const(e) { return if self.p.width(e) <= 64 { V::C(c as u64) } else { V::S(e) }; }
        if !st.known.is_empty() { if let Some(k) = st.known.get(&e) { return V::C(*k); } }
        if self.p.as_tab(e).is_some() {
            return match self.tab_const(st, e) { Some(c) => V::C(c), None => V::S(e) };
        }
        let r = self.simp(st, e);
        if let Some(c) = self.p.as_const(r) { return if self.p.width(r) <= 64 { V::C(c as u64) } else { V::S(r) }; }
        if !st.known.is_empty() { if let Some(k) = st.known.get(&r) { return V::C(*k); } }
        V::S(r)
    }
    fn simp(&mut self, st: &mut State, e: E) -> E {
        let id = self.dom_id(st);
        self.simp_rec(st, e, id)
    }
    fn simp_rec(&mut self, st: &State, e: E, id: u32) -> E {
        match &self.p.nodes[e as usize].0 {
            Node::Const(_) | Node::Var(_) => return e,
            Node::Tab(..) => {
                return match self.tab_const(st, e) { Some(c) => { let w = self.p.width(e); self.p.cst(c as u128, w) } None => e };
            }
            _ => {}
        }
        if let Some(&r) = self.simp_memo.get(&(e, id)) { return r; }
        let w = self.p.width(e);
        let r = match self.p.nodes[e as usize].0.clone() {
            Node::Bin(op, a, b) => {
                let (x, y) = (self.simp_rec(st, a, id), self.simp_rec(st, b, id));
                if (x, y) == (a, b) { e } else { self.p.bin(op, x, y) }
            }
            Node::Ite(c, a, b) => {
                let c2 = self.simp_rec(st, c, id);
                match self.p.as_const(c2) {
                    Some(1) => self.simp_rec(st, a, id),
                    Some(_) => self.simp_rec(st, b, id),
                    None => { let (x, y) = (self.simp_rec(st, a, id), self.simp_rec(st, b, id)); if (c2, x, y) == (c, a, b) { e } else { self.p.ite(c2, x, y) } }
                }
            }
            Node::Extract(a, lo) => { let x = self.simp_rec(st, a, id); if x == a { e } else { self.p.extract(x, lo, w) } }
            Node::ZExt(a) => { let x = self.simp_rec(st, a, id); if x == a { e } else { self.p.zext(x, w) } }
            Node::SExt(a) => { let x = self.simp_rec(st, a, id); if x == a { e } else { self.p.sext(x, w) } }
            _ => e,
        };
        self.simp_memo.insert((e, id), r);
        r
    }

    // ---- solver -------------------------------------------------------------------------------
    fn vars_of(sup: u128) -> impl Iterator<Item = u32> {
        let mut s = sup;
        std::iter::from_fn(move || if s == 0 { None } else { let i = s.trailing_zeros(); s &= s - 1; Some(i) })
    }
    /// Is `extra` satisfiable together with the (relevant part of the) path condition?
    pub fn sat(&mut self, st: &State, extra: &[E], whole: bool) -> R<Option<Vec<(u32, u64)>>> {
        let mut sup = 0u128;
        for &e in extra { sup |= self.p.support(e); }
        if whole { for &(v, _) in &st.used { sup |= 1 << v; } }
        let mut cs: Vec<E> = extra.to_vec();
        let mut left: Vec<E> = st.pc.clone();
        loop {
            let before = cs.len();
            left.retain(|&c| {
                let s = self.p.support(c);
                if s & sup != 0 { sup |= s; cs.push(c); false } else { true }
            });
            if cs.len() == before { break; }
        }
        let vars: Vec<u32> = Self::vars_of(sup).collect();
        let doms: Vec<(u32, [u64; 4])> = vars.iter().filter(|v| self.p.vars[**v as usize].dsize > 0).map(|v| (*v, st.doms[*v as usize])).collect();
        cs.sort();
        cs.dedup();
        let key = (cs, doms);
        if !whole { if let Some(r) = self.qcache.get(&key) { return Ok(r.clone()); } }
        let r = match self.z.check(&self.p, &key.0, &key.1, &vars) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown => return Err(Stop::Inconclusive("solver returned unknown".into())),
        };
        if !whole { self.qcache.insert(key, r.clone()); }
        Ok(r)
    }
    pub fn eval(&self, st: &State, e: E) -> u128 { self.p.eval(e, &st.model, &mut HashMap::new()) }
    fn apply_model(st: &mut State, m: &[(u32, u64)]) { for &(v, x) in m { st.model[v as usize] = x; } }

    /// Add `e` (known to be satisfiable with the state's path condition, and true under its model) to the path condition.
    fn add(&mut self, st: &mut State, e: E) {
        if self.p.as_const(e).is_some() { return; }
        if let Node::Bin(O::And, a, b) = self.p.nodes[e as usize].0.clone() {
            self.add(st, a);
            self.add(st, b);
            return;
        }
        if let Some((v, t)) = self.p.as_tab(e) {
            let mut d = st.doms[v as usize];
            for i in dom_iter(d) { if t[i] == 0 { d[i / 64] &= !(1 << (i % 64)); } }
            st.set_dom(v, d);
            return;
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
            st.entangled |= self.p.support(e);
            // remember truth of the condition and its negation
            let k = Rc::make_mut(&mut st.known);
            k.insert(e, 1);
            let n = self.p.not(e);
            Rc::make_mut(&mut st.known).insert(n, 0);
        }
    }
    /// Try to extend the state with condition `e`: None if infeasible.
    pub fn assume(&mut self, mut st: State, e: E) -> R<Option<State>> {
        if let Some(c) = self.p.as_const(e) { return Ok(if c == 1 { Some(st) } else { None }); }
        if let Some((v, t)) = self.p.as_tab(e) {
            let d = st.doms[v as usize];
            if !dom_iter(d).any(|i| t[i] == 1) { return Ok(None); }
            if st.entangled >> v & 1 == 0 { self.add(&mut st, e); return Ok(Some(st)); }
        }
        if self.eval(&st, e) == 1 { self.add(&mut st, e); return Ok(Some(st)); }
        match self.sat(&st, &[e], false)? {
            Some(m) => { Self::apply_model(&mut st, &m); self.add(&mut st, e); Ok(Some(st)) }
            None => Ok(None),
        }
    }
    /// Split on a boolean expression.
    pub fn split(&mut self, st: &State, e: E) -> R<(Option<State>, Option<State>)> {
        // split on a single-variable conjunct first: it only restricts a domain
        let n = self.p.not(e);
        let a = self.assume(st.clone(), e)?;
        let b = if a.is_none() { let mut s = st.clone(); self.add(&mut s, n); Some(s) } else { self.assume(st.clone(), n)? };
        Ok((a, b))
    }
    /// A single-variable table among the conjuncts/disjuncts of `e` to split on, if any.
    fn tab_part(&self, e: E, depth: u32) -> Option<E> {
        match &self.p.nodes[e as usize].0 {
            Node::Tab(..) => Some(e),
            Node::Bin(O::And | O::Or, a, b) if depth > 0 => self.tab_part(*a, depth - 1).or_else(|| self.tab_part(*b, depth - 1)),
            Node::Bin(O::Xor, a, b) if depth > 0 && self.p.as_const(*b) == Some(1) => self.tab_part(*a, depth - 1),
            Node::Ite(c, ..) if depth > 0 => self.tab_part(*c, depth - 1),
            _ => None,
        }
    }
    /// The value of a boolean in this state, forking when both are possible.
    pub fn decide(&mut self, st: &mut State, v: &V) -> R<bool> {
        let e = match v { V::C(c) => return Ok(c & 1 == 1), V::S(e) => *e, _ => panic!("symex: boolean") };
        match self.touch(st, e) {
            V::C(c) => return Ok(c & 1 == 1),
            V::S(e) => {
                let part = if self.p.as_tab(e).is_some() { e } else { self.tab_part(e, 12).unwrap_or(e) };
                let (a, b) = self.split(st, part)?;
                match (a, b) {
                    (Some(a), Some(b)) => Err(Stop::Fork(vec![a, b])),
                    (Some(a), None) => { *st = a; self.decide_again(st, e, part, true) }
                    (None, Some(b)) => { *st = b; self.decide_again(st, e, part, false) }
                    (None, None) => Err(Stop::Infeasible),
                }
            }
            _ => unreachable!(),
        }
    }
    fn decide_again(&mut self, st: &mut State, e: E, part: E, val: bool) -> R<bool> {
        if part == e { return Ok(val); }
        let k = Rc::make_mut(&mut st.known);
        k.insert(part, val as u64);
        // the part has one value here: substitute it
        let c = self.p.cst(val as u128, 1);
        let r = self.subst1(e, part, c);
        let v = self.v_of(r);
        self.decide(st, &v)
    }
    fn subst1(&mut self, e: E, from: E, to: E) -> E {
        if e == from { return to; }
        if self.p.support(e) & self.p.support(from) == 0 { return e; }
        match self.p.nodes[e as usize].0.clone() {
            Node::Bin(op, a, b) => { let (x, y) = (self.subst1(a, from, to), self.subst1(b, from, to)); if (x, y) == (a, b) { e } else { self.p.bin(op, x, y) } }
            Node::Ite(c, a, b) => { let (z, x, y) = (self.subst1(c, from, to), self.subst1(a, from, to), self.subst1(b, from, to)); if (z, x, y) == (c, a, b) { e } else { self.p.ite(z, x, y) } }
            _ => e,
        }
    }
    /// The concrete value of a scalar, forking over its possible values.
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        let e = match v { V::C(c) => return Ok(*c), V::S(e) => *e, _ => panic!("symex: conc of aggregate") };
        let e = match self.touch(st, e) { V::C(c) => return Ok(c), V::S(e) => e, _ => unreachable!() };
        if self.p.width(e) > 64 { return Err(Stop::Inconclusive("wide symbolic value".into())); }
        let mut outs: Vec<(u64, State)> = vec![];
        if let Some((v, t)) = self.p.as_tab(e) {
            let t = t.to_vec();
            let d = st.doms[v as usize];
            let mut groups: BTreeMap<u64, [u64; 4]> = BTreeMap::new();
            for i in dom_iter(d) { groups.entry(t[i]).or_insert([0; 4])[i / 64] |= 1 << (i % 64); }
            let ent = st.entangled >> v & 1 == 1;
            for (k, g) in groups {
                if ent {
                    let tt: Vec<u64> = (0..t.len()).map(|i| dom_has(&g, i) as u64).collect();
                    let c = self.p.tab(v, tt, 1);
                    if let Some(s) = self.assume(st.clone(), c)? { outs.push((k, s)); }
                } else {
                    let mut s = st.clone();
                    s.set_dom(v, g);
                    outs.push((k, s));
                }
            }
        } else {
            let w = self.p.width(e);
            let mut rest = st.clone();
            loop {
                let k = self.eval(&rest, e) as u64;
                let ke = self.p.cst(k as u128, w);
                let eq = self.p.bin(O::Eq, e, ke);
                let mut s = rest.clone();
                self.add(&mut s, eq);
                Rc::make_mut(&mut s.known).insert(e, k);
                outs.push((k, s));
                if outs.len() > self.cfg.max_enum { return Err(Stop::Inconclusive(format!("more than {} values of a symbolic quantity", self.cfg.max_enum))); }
                let ne = self.p.not(eq);
                match self.assume(rest, ne)? { Some(s) => rest = s, None => break }
            }
        }
        if outs.is_empty() { return Err(Stop::Infeasible); }
        if outs.len() == 1 { let (k, s) = outs.pop().unwrap(); *st = s; return Ok(k); }
        Err(Stop::Fork(outs.into_iter().map(|x| x.1).collect()))
    }

    // ---- memory -------------------------------------------------------------------------------
    pub fn with_obj<T>(&mut self, st: &State, addr: u64, n: u64, f: impl FnOnce(&Obj, usize) -> T) -> R<T> {
        let id = addr >> 32;
        if id == 1 {
            let gi = match self.m.global_at(addr) { Some(g) => g, None => return fail("memory", format!("invalid address {:#x}", addr)) };
            let g = &self.m.globals[gi as usize];
            let off = addr - g.addr;
            if off + n > g.size { return fail("memory", format!("access of {} bytes at offset {} of global {} ({} bytes)", n, off, g.name, g.size)); }
            if !g.constant { if let Some(o) = st.globals.get(&gi) { return Ok(f(o, off as usize)); } }
            if g.external { return Err(Stop::Inconclusive(format!("access to external global {}", g.name))); }
            if !self.cglob.contains_key(&gi) {
                let data = self.m.init_bytes(gi);
                self.cglob.insert(gi, Rc::new(Obj { data, sym: None, ro: g.constant }));
            }
            return Ok(f(&self.cglob[&gi], off as usize));
        }
        let off = addr & 0xffff_ffff;
        match st.obj(id) {
            Some(o) => {
                if off + n > o.data.len() as u64 { return fail("memory", format!("access of {} bytes at offset {} of an object of {} bytes", n, off, o.data.len())); }
                Ok(f(o, off as usize))
            }
            None => fail("memory", if id < FIRST_OBJ { format!("access through invalid pointer {:#x}", addr) } else { format!("access to freed or unallocated memory {:#x}", addr) }),
        }
    }
    pub fn with_obj_mut<T>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let id = addr >> 32;
        if id == 1 {
            let gi = match self.m.global_at(addr) { Some(g) => g, None => return fail("memory", format!("invalid address {:#x}", addr)) };
            let g = &self.m.globals[gi as usize];
            let off = addr - g.addr;
            if off + n > g.size { return fail("memory", format!("access of {} bytes at offset {} of global {} ({} bytes)", n, off, g.name, g.size)); }
            if g.constant { return fail("memory", format!("write to constant {}", g.name)); }
            if !st.globals.contains_key(&gi) {
                let data = self.m.init_bytes(gi);
                Rc::make_mut(&mut st.globals).insert(gi, Rc::new(Obj { data, sym: None, ro: false }));
            }
            let o = Rc::make_mut(&mut st.globals).get_mut(&gi).unwrap();
            return Ok(f(Rc::make_mut(o), off as usize));
        }
        let off = addr & 0xffff_ffff;
        let len = match st.obj(id) { Some(o) => o.data.len() as u64, None => return fail("memory", if id < FIRST_OBJ { format!("write through invalid pointer {:#x}", addr) } else { format!("write to freed or unallocated memory {:#x}", addr) }) };
        if off + n > len { return fail("memory", format!("write of {} bytes at offset {} of an object of {} bytes", n, off, len)); }
        Ok(f(st.obj_mut(id).unwrap(), off as usize))
    }
    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as u64;
        enum L { C(u128), S(Vec<(u8, E)>) }
        let l = self.with_obj(st, addr, n, |o, off| {
            if let Some(s) = &o.sym {
                if s[off..off + n as usize].iter().any(|x| *x != 0) {
                    return L::S((0..n as usize).map(|i| (o.data[off + i], s[off + i])).collect());
                }
            }
            let mut v = 0u128;
            for i in 0..n as usize { v |= (o.data[off + i] as u128) << (8 * i); }
            L::C(v)
        })?;
        match l {
            L::C(v) => {
                let v = v & mask(w);
                if w <= 64 { Ok(V::C(v as u64)) } else { Ok(V::S(self.p.cst(v, w))) }
            }
            L::S(bs) => {
                let mut e = 0;
                for (i, (b, s)) in bs.into_iter().enumerate() {
                    let x = if s != 0 { s } else { self.p.cst(b as u128, 8) };
                    e = if i == 0 { x } else { self.p.bin(O::Concat, x, e) };
                }
                if self.p.width(e) > w { e = self.p.extract(e, 0, w); }
                Ok(self.v_of(e))
            }
        }
    }
    pub fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.load_scalar(st, addr, ty.bits()),
            Ty::Vec(t, n) => {
                let b = t.bits();
                if b % 8 != 0 {
                    let x = self.load_scalar(st, addr, b * *n as u32)?;
                    let e = self.e_of(&x, b * *n as u32);
                    return Ok(self.unpack(e, ty));
                }
                let s = b as u64 / 8;
                let mut v = vec![];
                for i in 0..*n as u64 { v.push(self.load_scalar(st, addr + i * s, b)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Arr(t, n) => {
                let s = t.size();
                let mut v = vec![];
                for i in 0..*n { v.push(self.load(st, addr + i * s, t)?); }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let (_, offs) = ty.layout();
                let mut v = vec![];
                for (f, o) in fs.iter().zip(offs) { v.push(self.load(st, addr + o, f)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => panic!("symex: load of {:?}", ty),
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, V::C(c)) => {
                let n = ty.size_store() as usize;
                let c = *c;
                self.with_obj_mut(st, addr, n as u64, |o, off| {
                    if o.sym.is_some() { for i in 0..n { o.set_byte(off + i, if i < 8 { (c >> (8 * i)) as u8 } else { 0 }); } }
                    else if n <= 8 { o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); }
                    else { o.data[off..off + 8].copy_from_slice(&c.to_le_bytes()); for i in 8..n { o.data[off + i] = 0; } }
                })
            }
            (Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64, V::S(e)) => {
                let n = ty.size_store() as u32;
                let mut e = *e;
                if self.p.width(e) < n * 8 { e = self.p.zext(e, n * 8); }
                let mut bs = vec![];
                for i in 0..n {
                    let b = self.p.extract(e, 8 * i, 8);
                    bs.push((self.p.as_const(b), b));
                }
                self.with_obj_mut(st, addr, n as u64, |o, off| {
                    for (i, (c, b)) in bs.into_iter().enumerate() {
                        match c { Some(c) => o.set_byte(off + i, c as u8), None => o.set_sym(off + i, b) }
                    }
                })
            }
            (Ty::Vec(t, n), V::A(_)) if t.bits() % 8 != 0 => {
                let w = t.bits() * *n as u32;
                let e = self.pack(v, ty);
                let x = self.v_of(e);
                self.store(st, addr, &Ty::Int(w), &x)
            }
            (Ty::Vec(t, _), V::A(vs)) => { let s = t.bits() as u64 / 8; for (i, x) in vs.iter().enumerate() { self.store(st, addr + i as u64 * s, t, x)?; } Ok(()) }
            (Ty::Arr(t, _), V::A(vs)) => { let s = t.size(); for (i, x) in vs.iter().enumerate() { self.store(st, addr + i as u64 * s, t, x)?; } Ok(()) }
            (Ty::Struct(fs, _), V::A(vs)) => {
                let (_, offs) = ty.layout();
                for (i, x) in vs.iter().enumerate() { self.store(st, addr + offs[i], &fs[i], x)?; }
                Ok(())
            }
            _ => panic!("symex: store of {:?} as {:?}", v, ty),
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        if n > 1 << 31 { return fail("memory", format!("copy of {} bytes", n)); }
        let (d, s) = self.with_obj(st, src, n, |o, off| {
            let n = n as usize;
            (o.data[off..off + n].to_vec(), o.sym.as_ref().and_then(|s| { let s = &s[off..off + n]; if s.iter().any(|x| *x != 0) { Some(s.to_vec()) } else { None } }))
        })?;
        self.with_obj_mut(st, dst, n, |o, off| {
            let n = n as usize;
            o.data[off..off + n].copy_from_slice(&d);
            match (s, &mut o.sym) {
                (Some(s), Some(t)) => t[off..off + n].copy_from_slice(&s),
                (Some(s), None) => { let mut t = vec![0; o.data.len()]; t[off..off + n].copy_from_slice(&s); o.sym = Some(t); }
                (None, Some(t)) => for x in &mut t[off..off + n] { *x = 0; },
                (None, None) => {}
            }
        })
    }
    /// n bytes as expressions (concrete: (byte, 0))
    pub fn bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<(u8, E)>> {
        if n == 0 { return Ok(vec![]); }
        self.with_obj(st, addr, n, |o, off| (0..n as usize).map(|i| (o.data[off + i], o.sym.as_ref().map(|s| s[off + i]).unwrap_or(0))).collect())
    }
    /// A load through a possibly symbolic pointer.
    fn load_sym(&mut self, st: &mut State, ptr: &V, ty: &Ty) -> R<V> {
        let e = match ptr { V::C(a) => return self.load(st, *a, ty), V::S(e) => *e, _ => panic!() };
        if let (Some((v, t)), true) = (self.p.as_tab(e), matches!(ty, Ty::Int(1..=64) | Ty::Ptr)) {
            let t = t.to_vec();
            let w = ty.bits();
            let d = st.doms[v as usize];
            let mut by_addr: BTreeMap<u64, V> = BTreeMap::new();
            let mut ok = true;
            for i in dom_iter(d) {
                if by_addr.contains_key(&t[i]) { continue; }
                match self.load(st, t[i], ty) {
                    Ok(x) => { by_addr.insert(t[i], x); }
                    Err(_) => { ok = false; break; }
                }
            }
            if ok {
                // all constants or tables of the same variable: a table again
                let mut tab = vec![0u64; t.len()];
                let mut first = None;
                let mut good = true;
                for i in dom_iter(d) {
                    let x = match &by_addr[&t[i]] {
                        V::C(c) => *c,
                        V::S(e2) => match self.p.as_tab(*e2) { Some((v2, t2)) if v2 == v => t2[i], _ => { good = false; break; } },
                        _ => unreachable!(),
                    };
                    tab[i] = x;
                    if first.is_none() { first = Some(x); }
                }
                if good {
                    for i in 0..t.len() { if !dom_has(&d, i) { tab[i] = first.unwrap(); } }
                    let r = self.p.tab(v, tab, w);
                    return Ok(self.v_of(r));
                }
                let mut r: E = 0;
                for (a, x) in by_addr.iter() {
                    let x = self.e_of(x, w);
                    if r == 0 { r = x; continue; }
                    let sel: Vec<u64> = t.iter().map(|b| (*b == *a) as u64).collect();
                    let c = self.p.tab(v, sel, 1);
                    r = self.p.ite(c, x, r);
                }
                return Ok(self.v_of(r));
            }
        }
        let a = self.conc(st, ptr)?;
        self.load(st, a, ty)
    }

    // ---- operations ----------------------------------------------------------------------------
    pub fn bin(&mut self, k: BK, ty: &Ty, a: &V, b: &V) -> R<V> {
        match (ty, a, b) {
            (Ty::Int(w), V::C(x), V::C(y)) if *w <= 64 => {
                let (x, y, w) = (*x, *y, *w);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                Ok(V::C(match k {
                    BK::Add => x.wrapping_add(y) & m,
                    BK::Sub => x.wrapping_sub(y) & m,
                    BK::Mul => x.wrapping_mul(y) & m,
                    BK::And => x & y,
                    BK::Or => x | y,
                    BK::Xor => x ^ y,
                    BK::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    BK::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BK::AShr => ((sx(x) >> (y.min(w as u64 - 1))) as u64) & m,
                    BK::UDiv | BK::URem | BK::SDiv | BK::SRem if y == 0 => return fail("ub", "division by zero"),
                    BK::UDiv => x / y,
                    BK::URem => x % y,
                    BK::SDiv => (sx(x).wrapping_div(sx(y)) as u64) & m,
                    BK::SRem => (sx(x).wrapping_rem(sx(y)) as u64) & m,
                    _ => panic!("symex: float op on int"),
                }))
            }
            (Ty::Int(w), _, _) => {
                let (x, y) = (self.e_of(a, *w), self.e_of(b, *w));
                let op = match k { BK::Add => O::Add, BK::Sub => O::Sub, BK::Mul => O::Mul, BK::UDiv => O::UDiv, BK::SDiv => O::SDiv, BK::URem => O::URem,
                    BK::SRem => O::SRem, BK::Shl => O::Shl, BK::LShr => O::LShr, BK::AShr => O::AShr, BK::And => O::And, BK::Or => O::Or, BK::Xor => O::Xor, _ => panic!() };
                let e = self.p.bin(op, x, y);
                Ok(self.v_of(e))
            }
            (Ty::F64, V::C(x), V::C(y)) => {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                Ok(V::C(match k { BK::FAdd => x + y, BK::FSub => x - y, BK::FMul => x * y, BK::FDiv => x / y, BK::FRem => x % y, _ => panic!() }.to_bits()))
            }
            (Ty::F32, V::C(x), V::C(y)) => {
                let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                Ok(V::C(match k { BK::FAdd => x + y, BK::FSub => x - y, BK::FMul => x * y, BK::FDiv => x / y, BK::FRem => x % y, _ => panic!() }.to_bits() as u64))
            }
            (Ty::Vec(t, _), V::A(x), V::A(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) { v.push(self.bin(k, t, p, q)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Inconclusive(format!("symbolic operand of {:?} {:?}", k, ty))),
        }
    }
    pub fn cmp(&mut self, p: Pred, ty: &Ty, a: &V, b: &V) -> R<V> {
        match (ty, a, b) {
            (Ty::Int(_) | Ty::Ptr, V::C(x), V::C(y)) => {
                let w = ty.bits();
                let (x, y) = (*x, *y);
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                Ok(V::C(match p {
                    Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
                    Pred::Slt => sx(x) < sx(y), Pred::Sle => sx(x) <= sx(y), Pred::Sgt => sx(x) > sx(y), Pred::Sge => sx(x) >= sx(y), _ => panic!(),
                } as u64))
            }
            (Ty::Int(_) | Ty::Ptr, _, _) => {
                let w = ty.bits();
                let (x, y) = (self.e_of(a, w), self.e_of(b, w));
                let e = match p {
                    Pred::Eq => self.p.bin(O::Eq, x, y),
                    Pred::Ne => { let e = self.p.bin(O::Eq, x, y); self.p.not(e) }
                    Pred::Ult => self.p.bin(O::Ult, x, y), Pred::Ule => self.p.bin(O::Ule, x, y),
                    Pred::Ugt => self.p.bin(O::Ult, y, x), Pred::Uge => self.p.bin(O::Ule, y, x),
                    Pred::Slt => self.p.bin(O::Slt, x, y), Pred::Sle => self.p.bin(O::Sle, x, y),
                    Pred::Sgt => self.p.bin(O::Slt, y, x), Pred::Sge => self.p.bin(O::Sle, y, x),
                    _ => panic!(),
                };
                Ok(self.v_of(e))
            }
            (Ty::F64 | Ty::F32, V::C(x), V::C(y)) => {
                let (x, y) = if *ty == Ty::F64 { (f64::from_bits(*x), f64::from_bits(*y)) } else { (f32::from_bits(*x as u32) as f64, f32::from_bits(*y as u32) as f64) };
                let u = x.is_nan() || y.is_nan();
                Ok(V::C(match p {
                    Pred::FFalse => false, Pred::FTrue => true, Pred::FOrd => !u, Pred::FUno => u,
                    Pred::FOeq => x == y, Pred::FOgt => x > y, Pred::FOge => x >= y, Pred::FOlt => x < y, Pred::FOle => x <= y, Pred::FOne => !u && x != y,
                    Pred::FUeq => u || x == y, Pred::FUgt => u || x > y, Pred::FUge => u || x >= y, Pred::FUlt => u || x < y, Pred::FUle => u || x <= y, Pred::FUne => u || x != y,
                    _ => panic!(),
                } as u64))
            }
            (Ty::Vec(t, _), V::A(x), V::A(y)) => {
                let mut v = vec![];
                for (q, r) in x.iter().zip(y.iter()) { v.push(self.cmp(p, t, q, r)?); }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Inconclusive(format!("symbolic operand of {:?} {:?}", p, ty))),
        }
    }
    fn pack(&mut self, v: &V, ty: &Ty) -> E {
        // aggregate/vector or scalar as one bit-vector
        match (ty, v) {
            (Ty::Vec(t, _), V::A(vs)) => {
                let b = t.bits();
                let mut e = 0;
                for (i, x) in vs.iter().enumerate() { let x = self.e_of(x, b); e = if i == 0 { x } else { self.p.bin(O::Concat, x, e) }; }
                e
            }
            _ => self.e_of(v, ty.bits()),
        }
    }
    fn unpack(&mut self, e: E, ty: &Ty) -> V {
        match ty {
            Ty::Vec(t, n) => {
                let b = t.bits();
                V::A(Rc::new((0..*n).map(|i| { let x = self.p.extract(e, i * b, b); self.v_of(x) }).collect()))
            }
            _ => self.v_of(e),
        }
    }
    fn cast(&mut self, k: CK, t: &Ty, t2: &Ty, a: &V) -> R<V> {
        if let (Ty::Vec(x, _), Ty::Vec(y, _), V::A(vs)) = (t, t2, a) {
            if k != CK::Bit {
                let mut v = vec![];
                for q in vs.iter() { v.push(self.cast(k, x, y, q)?); }
                return Ok(V::A(Rc::new(v)));
            }
        }
        Ok(match k {
            CK::Bit => {
                if let (Ty::Vec(..), _) | (_, Ty::Vec(..)) = (t, t2) {
                    // concrete fast path for movemask
                    if let (Ty::Vec(e, _), V::A(vs), Ty::Int(w)) = (t, a, t2) {
                        if **e == Ty::Int(1) && *w <= 64 && vs.iter().all(|x| matches!(x, V::C(_))) {
                            let mut r = 0u64;
                            for (i, x) in vs.iter().enumerate() { r |= (to_lin(x).unwrap() & 1) << i; }
                            return Ok(V::C(r));
                        }
                    }
                    if let Ty::Vec(e, n) = t { if e.bits() * n > 128 { return Err(Stop::Inconclusive("vector bitcast over 128 bits".into())); } }
                    let e = self.pack(a, t);
                    self.unpack(e, t2)
                } else { a.clone() }
            }
            CK::Trunc | CK::ZExt | CK::SExt | CK::PtrInt => {
                let (w, w2) = (t.bits(), t2.bits());
                match a {
                    V::C(c) if w2 <= 64 => {
                        let m = mask(w2) as u64;
                        V::C(if k == CK::SExt { (((*c << (64 - w)) as i64) >> (64 - w)) as u64 & m } else { *c & m })
                    }
                    _ => {
                        let e = self.e_of(a, w);
                        let r = if w2 < w { self.p.extract(e, 0, w2) } else if k == CK::SExt { self.p.sext(e, w2) } else { self.p.zext(e, w2) };
                        self.v_of(r)
                    }
                }
            }
            _ => {
                let V::C(c) = a else { return Err(Stop::Inconclusive("symbolic float conversion".into())) };
                let c = *c;
                let fl = |t: &Ty, c: u64| if *t == Ty::F64 { f64::from_bits(c) } else { f32::from_bits(c as u32) as f64 };
                let out = |t2: &Ty, f: f64| if *t2 == Ty::F64 { f.to_bits() } else { (f as f32).to_bits() as u64 };
                V::C(match k {
                    CK::UiToFp => out(t2, c as f64),
                    CK::SiToFp => out(t2, sext128(c as u128, t.bits()) as f64),
                    CK::FpToUi => (fl(t, c) as u64) & mask(t2.bits()) as u64,
                    CK::FpToSi => (fl(t, c) as i64 as u64) & mask(t2.bits()) as u64,
                    _ => out(t2, fl(t, c)),
                })
            }
        })
    }
    fn select(&mut self, st: &mut State, ty: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::C(x) => Ok(if x & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(e) => match (ty, a, b) {
                (Ty::Int(_) | Ty::Ptr, _, _) => {
                    let w = ty.bits();
                    let (x, y) = (self.e_of(a, w), self.e_of(b, w));
                    if *ty == Ty::Ptr && x != y && self.p.as_tab(*e).is_none() {
                        let r = self.decide(st, c)?;
                        return Ok(if r { a.clone() } else { b.clone() });
                    }
                    let r = self.p.ite(*e, x, y);
                    Ok(self.v_of(r))
                }
                _ => { let r = self.decide(st, c)?; Ok(if r { a.clone() } else { b.clone() }) }
            },
            V::A(cs) => {
                let (Ty::Vec(t, _), V::A(x), V::A(y)) = (ty, a, b) else { panic!() };
                let mut v = vec![];
                for i in 0..cs.len() { v.push(self.select(st, t, &cs[i], &x[i], &y[i])?); }
                Ok(V::A(Rc::new(v)))
            }
        }
    }

    #[inline]
    fn get(&mut self, st: &mut State, o: &Opnd) -> V {
        match o {
            Opnd::K(v) => v.clone(),
            Opnd::W(c, w) => V::S(self.p.cst(*c, *w)),
            Opnd::R(r) => {
                let v = st.frames.last().unwrap().regs[*r as usize].clone();
                if let V::S(e) = v { return self.touch(st, e); }
                v
            }
        }
    }
    #[inline]
    fn get_t(&mut self, st: &mut State, o: &Opnd, ty: &Ty) -> V {
        let _ = ty;
        self.get(st, o)
    }

    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let (func, fi, from) = { let f = st.frames.last().unwrap(); (f.func, f.fi, f.block) };
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for (dst, ins) in &blk.phis {
                let mut found = None;
                for (p, o) in ins { if *p == from { found = Some(o); break; } }
                let o = found.unwrap_or_else(|| panic!("symex: phi without predecessor in {}", func.name));
                let v = self.get(st, o);
                vals.push((*dst, v));
            }
            let f = st.top();
            for (d, v) in vals { f.regs[d as usize] = v; }
        }
        let f = st.top();
        f.block = b;
        f.ip = 0;
        self.exec_blocks.insert((fi, b));
        Ok(())
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: V) {
        let f = st.top();
        if self.trace { eprintln!("    {}:{} r{} = {:x?}", f.block, f.ip, r, v); }
        f.regs[r as usize] = v;
        f.ip += 1;
    }

    /// Run one state until it forks or ends.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Fail(mut f)) => { if f.loc.is_empty() { f.loc = self.where_(st); } return Stop::Fail(f); }
                Err(Stop::Inconclusive(m)) => { let w = self.where_(st); return Stop::Inconclusive(format!("{} at {}", m, w)); }
                Err(s) => return s,
            }
            if st.steps > self.cfg.max_steps { let w = self.where_(st); return Stop::Inconclusive(format!("step limit {} reached at {}", self.cfg.max_steps, w)); }
        }
    }
    pub fn where_(&self, st: &State) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let b = &f.func.blocks[f.block as usize];
            let d = b.dbg.get(f.ip as usize).copied().unwrap_or(0);
            for (sp, line) in self.m.loc_chain(d) {
                let (_, file, _) = self.m.sp_info(sp);
                let file = file.rsplit("/library/").next().unwrap_or(&file).to_string();
                let file = file.strip_prefix("/repo/").unwrap_or(&file).to_string();
                v.push(format!("{}:{}", file, line));
                if v.len() >= 14 { return v.join(" < "); }
            }
            if d == 0 { v.push(f.func.name.clone()); }
        }
        v.join(" < ")
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        self.total_steps += 1;
        let (func, block, ip) = { let f = st.frames.last().unwrap(); (f.func, f.block, f.ip) };
        let inst = &func.blocks[block as usize].insts[ip as usize];
        match inst {
            Inst::Nop => { st.top().ip += 1; }
            Inst::Bin(k, ty, d, a, b) => {
                let (a, b) = (self.get_t(st, a, ty), self.get_t(st, b, ty));
                if let (BK::UDiv | BK::URem | BK::SDiv | BK::SRem, V::S(_)) = (k, &b) {
                    // division by a symbolic value: the compiler guards against zero
                    if let Ty::Int(w) = ty {
                        let be = self.e_of(&b, *w);
                        let z = self.p.cst(0, *w);
                        let c = self.p.bin(O::Eq, be, z);
                        let c = self.v_of(c);
                        if self.decide(st, &c)? { return fail("ub", "division by zero"); }
                    }
                }
                let v = self.bin(*k, ty, &a, &b)?;
                self.set(st, *d, v);
            }
            Inst::Cmp(p, ty, d, a, b) => {
                let (a, b) = (self.get_t(st, a, ty), self.get_t(st, b, ty));
                let v = self.cmp(*p, ty, &a, &b)?;
                self.set(st, *d, v);
            }
            Inst::Cast(k, t, t2, d, a) => {
                let a = self.get_t(st, a, t);
                let v = self.cast(*k, t, t2, &a)?;
                self.set(st, *d, v);
            }
            Inst::Select(d, ty, c, a, b) => {
                let (c, a, b) = (self.get(st, c), self.get_t(st, a, ty), self.get_t(st, b, ty));
                let v = self.select(st, ty, &c, &a, &b)?;
                self.set(st, *d, v);
            }
            Inst::Load(d, ty, p) => {
                let p = self.get(st, p);
                let v = self.load_sym(st, &p, ty)?;
                self.set(st, *d, v);
            }
            Inst::Store(ty, v, p) => {
                let (v, p) = (self.get_t(st, v, ty), self.get(st, p));
                let a = self.conc(st, &p)?;
                self.store(st, a, ty, &v)?;
                st.top().ip += 1;
            }
            Inst::Gep(d, base, off, dynv) => {
                let mut v = self.get(st, base);
                for (o, w, stride) in dynv {
                    let i = self.get(st, o);
                    v = match (&v, &i) {
                        (V::C(b), V::C(i)) => V::C(b.wrapping_add((sext128(*i as u128, *w) as i64 as u64).wrapping_mul(*stride))),
                        (V::A(_), _) | (_, V::A(_)) => return Err(Stop::Inconclusive("vector gep".into())),
                        _ => {
                            let be = self.e_of(&v, 64);
                            let mut ie = self.e_of(&i, *w);
                            if *w < 64 { ie = self.p.sext(ie, 64); }
                            let s = self.p.cst(*stride as u128, 64);
                            let m = self.p.bin(O::Mul, ie, s);
                            let r = self.p.bin(O::Add, be, m);
                            self.v_of(r)
                        }
                    };
                }
                if *off != 0 {
                    v = match v {
                        V::C(b) => V::C(b.wrapping_add(*off)),
                        V::S(e) => { let k = self.p.cst(*off as u128, 64); let r = self.p.bin(O::Add, e, k); self.v_of(r) }
                        _ => return Err(Stop::Inconclusive("vector gep".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Alloca(d, n) => {
                let a = st.alloc(*n as usize);
                let f = st.top();
                f.allocas.push(a >> 32);
                self.set(st, *d, V::C(a));
            }
            Inst::Br(b) => self.goto(st, *b)?,
            Inst::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let r = self.decide(st, &c)?;
                self.goto(st, if r { *a } else { *b })?;
            }
            Inst::Switch(v, w, def, cases) => {
                let v = self.get(st, v);
                let t = match v {
                    V::C(c) => cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def),
                    V::S(e) => {
                        if let Some((var, t)) = self.p.as_tab(e) {
                            // group the domain by target
                            let map: HashMap<u64, u32> = cases.iter().rev().cloned().collect();
                            let tt: Vec<u64> = t.iter().map(|x| *map.get(x).unwrap_or(def) as u64).collect();
                            let te = self.p.tab(var, tt, 64);
                            let te = self.v_of(te);
                            self.conc(st, &te)? as u32
                        } else {
                            let mut groups: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
                            for (k, t) in cases { groups.entry(*t).or_default().push(*k); }
                            let mut r = self.p.cst(*def as u128, 64);
                            for (t, ks) in groups {
                                let mut c = self.p.cst(0, 1);
                                for k in ks { let ke = self.p.cst(k as u128, *w); let q = self.p.bin(O::Eq, e, ke); c = self.p.bin(O::Or, c, q); }
                                let te = self.p.cst(t as u128, 64);
                                r = self.p.ite(c, te, r);
                            }
                            let rv = self.v_of(r);
                            self.conc(st, &rv)? as u32
                        }
                    }
                    _ => panic!(),
                };
                self.goto(st, t)?;
            }
            Inst::Ret(o) => {
                let v = match o { Some(o) => self.get(st, o), None => V::C(0) };
                let f = st.frames.pop().unwrap();
                for a in &f.allocas { st.free(*a); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                let t = st.top();
                if let Some(r) = f.ret { t.regs[r as usize] = v; }
                t.ip += 1;
            }
            Inst::Unreachable => return fail("unreachable", "unreachable code reached"),
            Inst::ExtractVal(d, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => panic!("symex: extractvalue") }; }
                self.set(st, *d, v);
            }
            Inst::InsertVal(d, ty, a, x, ix) => {
                let a = self.get(st, a);
                let a = if let V::A(_) = a { a } else { zero_of(ty) };
                let x = self.get(st, x);
                fn ins(a: &V, x: V, ix: &[u32]) -> V {
                    if ix.is_empty() { return x; }
                    let V::A(v) = a else { panic!("symex: insertvalue") };
                    let mut v = (**v).clone();
                    v[ix[0] as usize] = ins(&v[ix[0] as usize].clone(), x, &ix[1..]);
                    V::A(Rc::new(v))
                }
                let v = ins(&a, x, ix);
                self.set(st, *d, v);
            }
            Inst::ExtractEl(d, a, i) => {
                let (a, i) = (self.get(st, a), self.get(st, i));
                let i = self.conc(st, &i)?;
                let V::A(v) = a else { panic!() };
                let v = v[i as usize].clone();
                self.set(st, *d, v);
            }
            Inst::InsertEl(d, _ty, a, x, i) => {
                let (a, x, i) = (self.get(st, a), self.get(st, x), self.get(st, i));
                let i = self.conc(st, &i)?;
                let V::A(v) = a else { panic!() };
                let mut v = (*v).clone();
                v[i as usize] = x;
                self.set(st, *d, V::A(Rc::new(v)));
            }
            Inst::Shuffle(d, n, a, b, k) => {
                let (a, b, k) = (self.get(st, a), self.get(st, b), self.get(st, k));
                let (V::A(a), V::A(b), V::A(k)) = (a, b, k) else { panic!() };
                let v = k.iter().map(|i| { let i = to_lin(i).unwrap() as u32; if i < *n { a[i as usize].clone() } else { b[(i - n) as usize].clone() } }).collect();
                self.set(st, *d, V::A(Rc::new(v)));
            }
            Inst::Copy(d, a) => { let v = self.get(st, a); self.set(st, *d, v); }
            Inst::FNeg(d, ty, a) => {
                let V::C(c) = self.get(st, a) else { return Err(Stop::Inconclusive("symbolic float".into())) };
                let v = if *ty == Ty::F64 { c ^ (1 << 63) } else { c ^ (1 << 31) };
                self.set(st, *d, V::C(v));
            }
            Inst::Call(d, rt, callee, args, tys) => {
                let fi = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ptr(o) => {
                        let p = self.get(st, o);
                        let a = self.conc(st, &p)?;
                        match self.m.func_at(a) { Some(f) => f, None => return fail("memory", format!("call through invalid function pointer {:#x}", a)) }
                    }
                    Callee::Asm(t) => {
                        let v = if t.contains("cpuid") { zero_of(rt) }
                            else if args.len() == 1 && (t.is_empty() || t.starts_with("/*")) { self.get(st, &args[0]) }
                            else if *rt == Ty::Void { V::C(0) }
                            else { return Err(Stop::Inconclusive(format!("inline assembly {}", t))) };
                        if let Some(d) = d { self.set(st, *d, v); } else { st.top().ip += 1; }
                        return Ok(());
                    }
                };
                let mut vals = Vec::with_capacity(args.len());
                for (a, t) in args.iter().zip(tys) { let v = self.get_t(st, a, t); vals.push(v); }
                if let Some(b) = self.builtins[fi as usize] {
                    let v = b(self, st, &vals, rt, tys)?;
                    if let Some(d) = d { self.set(st, *d, v); } else { st.top().ip += 1; }
                } else {
                    let f = self.func(fi)?;
                    if f.hasher && vals.len() == 3 {
                        // hashing of symbolic bytes: one path per value
                        let (p, n) = (self.conc(st, &vals[1])?, self.conc(st, &vals[2])?);
                        for i in 0..n {
                            let b = self.load(st, p + i, &Ty::Int(8))?;
                            if let V::S(_) = b { let c = self.conc(st, &b)?; self.store(st, p + i, &Ty::Int(8), &V::C(c))?; }
                        }
                    }
                    if st.frames.len() > 20000 { return fail("stack", "call depth exceeds 20000 frames"); }
                    let mut regs = vec![V::C(0); f.nregs as usize];
                    for (i, v) in vals.into_iter().enumerate() { if i < f.nparams as usize { regs[i] = v; } }
                    if self.trace { eprintln!("{}{}", " ".repeat(st.frames.len()), f.name); }
                    st.frames.push(Rc::new(Frame { func: f, fi, regs, block: 0, ip: 0, ret: *d, allocas: vec![] }));
                    self.exec_blocks.insert((fi, 0));
                }
            }
        }
        Ok(())
    }
}

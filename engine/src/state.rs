//! Execution states: frames, memory objects, path condition.
use crate::expr::*;
use crate::ll::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0: the concrete byte; otherwise an 8-bit expression
    pub ro: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: None, ro: false } }
    pub fn set_byte(&mut self, i: usize, b: u8) {
        self.data[i] = b;
        if let Some(s) = &mut self.sym { s[i] = 0; }
    }
    pub fn set_sym(&mut self, i: usize, e: E) {
        let n = self.data.len();
        self.sym.get_or_insert_with(|| vec![0; n])[i] = e;
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: &'static Func,
    pub fi: u32,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub ret: Option<u32>,
    pub allocas: Vec<u64>,
}

pub type Chunk = Vec<Option<Rc<Obj>>>; // 64 slots
pub const CH: usize = 64;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub chunks: Vec<Rc<Chunk>>,
    pub next_obj: u64,
    pub globals: Rc<HashMap<u32, Rc<Obj>>>,
    pub doms: Vec<[u64; 4]>, // per variable id (raw variables: unused)
    pub dom_id: u32,         // interned id of `doms` (0: stale)
    pub used: Vec<(u32, u32)>, // the variables of this path in order: (id, kind)
    pub pc: Vec<E>,
    pub entangled: u128,
    pub known: Rc<HashMap<E, u64>>,
    pub model: Vec<u64>,
    pub steps: u64,
    pub forks: u32,
    pub outs: Rc<Vec<Out>>,
    pub covers: Rc<Vec<u32>>,
    pub asserts: u32,
    pub checked: Rc<Vec<E>>,
    pub fs: Rc<crate::vfs::Vfs>,
}

#[derive(Clone)]
pub enum Out { C(u64), S(E) }

#[derive(Debug, Clone)]
pub struct Fail {
    pub kind: &'static str, // check, panic, memory, unreachable, abort, ...
    pub id: u64,
    pub msg: String,
    pub loc: String,
}

pub enum Stop {
    Fork(Vec<State>),
    Fail(Fail),
    Infeasible,
    Done,
    Inconclusive(String),
}
pub type R<T> = Result<T, Stop>;

pub fn fail<T>(kind: &'static str, msg: impl Into<String>) -> R<T> {
    Err(Stop::Fail(Fail { kind, id: 0, msg: msg.into(), loc: String::new() }))
}

pub fn full_dom(n: u32) -> [u64; 4] {
    let mut d = [0u64; 4];
    for i in 0..n as usize { d[i / 64] |= 1 << (i % 64); }
    d
}
pub fn dom_count(d: &[u64; 4]) -> u32 { d.iter().map(|x| x.count_ones()).sum() }
pub fn dom_iter(d: [u64; 4]) -> impl Iterator<Item = usize> {
    (0..4).flat_map(move |k| {
        let mut x = d[k];
        std::iter::from_fn(move || { if x == 0 { None } else { let i = x.trailing_zeros() as usize; x &= x - 1; Some(k * 64 + i) } })
    })
}
pub fn dom_first(d: &[u64; 4]) -> Option<usize> {
    for k in 0..4 { if d[k] != 0 { return Some(k * 64 + d[k].trailing_zeros() as usize); } }
    None
}
pub fn dom_has(d: &[u64; 4], i: usize) -> bool { (d[i / 64] >> (i % 64)) & 1 == 1 }

impl State {
    pub fn new() -> State {
        State { frames: vec![], chunks: vec![], next_obj: FIRST_OBJ, globals: Rc::new(HashMap::new()), doms: vec![], dom_id: 0,
            used: vec![], pc: vec![], entangled: 0, known: Rc::new(HashMap::new()), model: vec![], steps: 0, forks: 0,
            outs: Rc::new(vec![]), covers: Rc::new(vec![]), asserts: 0, checked: Rc::new(vec![]), fs: Rc::new(Default::default()) }
    }
    pub fn alloc(&mut self, n: usize) -> u64 {
        let id = self.next_obj;
        self.next_obj += 1;
        let c = (id as usize) / CH;
        while self.chunks.len() <= c { self.chunks.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(Obj::new(n)));
        id << 32
    }
    pub fn obj(&self, id: u64) -> Option<&Rc<Obj>> {
        let id = id as usize;
        self.chunks.get(id / CH).and_then(|c| c[id % CH].as_ref())
    }
    pub fn obj_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let id = id as usize;
        let c = self.chunks.get_mut(id / CH)?;
        if c[id % CH].is_none() { return None; }
        Rc::make_mut(c)[id % CH].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u64) -> bool {
        let id = id as usize;
        match self.chunks.get_mut(id / CH) {
            Some(c) if c[id % CH].is_some() => { Rc::make_mut(c)[id % CH] = None; true }
            _ => false,
        }
    }
    #[inline]
    pub fn top(&mut self) -> &mut Frame { Rc::make_mut(self.frames.last_mut().unwrap()) }
    pub fn set_dom(&mut self, v: u32, d: [u64; 4]) {
        self.doms[v as usize] = d;
        self.dom_id = 0;
        let m = &mut self.model[v as usize];
        if !dom_has(&d, *m as usize) { if let Some(f) = dom_first(&d) { *m = f as u64; } }
    }
}

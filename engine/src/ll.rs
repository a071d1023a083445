//! Parser for textual LLVM IR (the subset rustc + opt produce), and the in-memory form executed.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(Rc<Ty>, u64),
    Vec(Rc<Ty>, u32),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(n) => *n, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, t => panic!("symex: bits of {:?}", t) }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, _) => t.align(),
            Ty::Vec(..) => self.size_store().next_power_of_two(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size_store(&self) -> u64 {
        match self {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Vec(t, n) => (t.bits() as u64 * *n as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => { let s = self.size_store(); let a = self.align(); (s + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(t, n) => t.size() * n,
            Ty::Vec(..) => { let s = self.size_store(); let a = self.align(); (s + a - 1) / a * a }
            Ty::Struct(..) => {
                let (o, _) = self.layout();
                o
            }
            _ => 0,
        }
    }
    /// (total size, field offsets)
    pub fn layout(&self) -> (u64, Vec<u64>) {
        if let Ty::Struct(fs, packed) = self {
            let mut o = 0;
            let mut v = vec![];
            for f in fs.iter() {
                if !packed { let a = f.align(); o = (o + a - 1) / a * a; }
                v.push(o);
                o += f.size();
            }
            let a = self.align();
            ((o + a - 1) / a * a, v)
        } else { panic!() }
    }
}

/// A runtime value: a concrete scalar of at most 64 bits, a symbolic (or wide) scalar, or an aggregate/vector.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(crate::expr::E),
    A(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(V),
    W(u128, u32), // wide constant (> 64 bits)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CK { Trunc, ZExt, SExt, Bit, PtrInt, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge, FFalse, FOeq, FOgt, FOge, FOlt, FOle, FOne, FOrd, FUno, FUeq, FUgt, FUge, FUlt, FUle, FUne, FTrue }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ptr(Opnd), Asm(String) }

#[derive(Debug)]
pub enum Inst {
    Bin(BK, Ty, u32, Opnd, Opnd),
    Cmp(Pred, Ty, u32, Opnd, Opnd),
    Cast(CK, Ty, Ty, u32, Opnd),
    Select(u32, Ty, Opnd, Opnd, Opnd),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u32, u64)>), // dst, base, constant offset, (index, index width, stride)
    Alloca(u32, u64),
    Call(Option<u32>, Ty, Callee, Vec<Opnd>, Vec<Ty>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u64, u32)>), // value, width, default, cases
    Ret(Option<Opnd>),
    Unreachable,
    ExtractVal(u32, Opnd, Vec<u32>),
    InsertVal(u32, Ty, Opnd, Opnd, Vec<u32>),
    ExtractEl(u32, Opnd, Opnd),
    InsertEl(u32, Ty, Opnd, Opnd, Opnd),
    Shuffle(u32, u32, Opnd, Opnd, Opnd), // dst, n lanes of inputs
    Copy(u32, Opnd),
    FNeg(u32, Ty, Opnd),
    Nop,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub hasher: bool,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the define .. } text
    pub sp: u32,                     // !dbg of the subprogram
    pub addr: u64,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub init: (usize, usize), // text range from the type on
    pub constant: bool,
    pub external: bool,
    pub tls: bool,
}

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<FuncDecl>,
    pub fnames: HashMap<&'static str, u32>,
    pub globals: Vec<Global>,
    pub gnames: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, (usize, usize)>,
    pub aliases: HashMap<&'static str, &'static str>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub glob_end: u64,
}

pub const GLOBAL_BASE: u64 = 1 << 32;
pub const FUNC_BASE: u64 = 2 << 32;
pub const FIRST_OBJ: u64 = 16;

fn name_end(b: &[u8], mut i: usize) -> usize {
    // b[i] is just after the sigil
    if b[i] == b'"' {
        i += 1;
        while b[i] != b'"' { i += 1; }
        return i + 1;
    }
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1; }
    i
}
fn unq(s: &str) -> &str { s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s) }

impl Module {
    pub fn load(text: &'static str) -> Module {
        let mut m = Module { text, funcs: vec![], fnames: HashMap::new(), globals: vec![], gnames: HashMap::new(),
            types: HashMap::new(), aliases: HashMap::new(), meta: HashMap::new(), glob_end: 0 };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut pending_globals: Vec<(&'static str, usize, usize)> = vec![];
        while pos < b.len() {
            let eol = memchr(b, pos, b'\n');
            let line = &text[pos..eol];
            let lb = line.as_bytes();
            if !lb.is_empty() {
                match lb[0] {
                    b'!' => {
                        let mut i = 1;
                        let mut n: u32 = 0;
                        while i < lb.len() && lb[i].is_ascii_digit() { n = n * 10 + (lb[i] - b'0') as u32; i += 1; }
                        if i > 1 { m.meta.insert(n, (pos + i, eol)); }
                    }
                    b'@' => {
                        let e = name_end(lb, 1);
                        pending_globals.push((unq(&line[1..e]), pos + e, eol));
                    }
                    b'%' => {
                        let e = name_end(lb, 1);
                        if let Some(k) = line.find("= type ") { m.types.insert(unq(&line[1..e]), (pos + k + 7, eol)); }
                    }
                    b'd' if line.starts_with("define ") => {
                        let at = line.find('@').unwrap();
                        // the function name is the first @ outside of attributes
                        let e = name_end(lb, at + 1);
                        let name = unq(&line[at + 1..e]);
                        let mut k = eol;
                        // find the closing brace line
                        loop {
                            let n = memchr(b, k + 1, b'\n');
                            if &text[k + 1..n] == "}" { k = n; break; }
                            k = n;
                        }
                        let sp = line.rfind("!dbg !").map(|i| num_at(lb, i + 6)).unwrap_or(0);
                        m.add_func(name, Some((pos, k)), sp);
                        pos = k + 1;
                        continue;
                    }
                    b'd' if line.starts_with("declare ") => {
                        let at = line.find('@').unwrap();
                        let e = name_end(lb, at + 1);
                        let name = unq(&line[at + 1..e]);
                        m.add_func(name, None, 0);
                    }
                    _ => {}
                }
            }
            pos = eol + 1;
        }
        // layout of globals
        let mut addr = GLOBAL_BASE + 4096;
        for (name, s, e) in pending_globals {
            let line = &text[s..e];
            let mut c = Cur::new(&m, line, s);
            c.expect("=");
            let (mut constant, mut external, mut tls) = (false, false, false);
            loop {
                c.ws();
                let save = c.i;
                let w = c.word();
                match w {
                    "constant" => { constant = true; break; }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    "thread_local" => { tls = true; if c.peek() == b'(' { c.skip_parens(); } }
                    "alias" | "ifunc" => { break; }
                    "" => { c.i = save; panic!("symex: global {}", line); }
                    _ => { if c.peek() == b'(' { c.skip_parens(); } }
                }
            }
            if line.contains(" alias ") && line[..c.i.min(line.len())].contains("alias") {
                let at = line.rfind('@').unwrap();
                let en = name_end(line.as_bytes(), at + 1);
                m.aliases.insert(name, unq(&text[s + at + 1..s + en]));
                continue;
            }
            let init = (s + c.i, e);
            let ty = c.ty();
            let align = line.rfind(", align ").map(|i| num_at(line.as_bytes(), i + 8) as u64).unwrap_or(ty.align()).max(16);
            let size = ty.size();
            addr = (addr + align - 1) / align * align;
            let gi = m.globals.len() as u32;
            m.globals.push(Global { name: name.to_string(), addr, size, align, init, constant, external, tls });
            m.gnames.insert(name, gi);
            addr += size + 32;
        }
        m.glob_end = addr;
        assert!(addr < FUNC_BASE);
        // the standard library takes the command line from a function in .init_array
        if let Some(&n) = m.fnames.keys().find(|n| n.contains("ARGV_INIT_ARRAY12init_wrapper")) { m.aliases.insert("sx_args", n); }
        m
    }
    fn add_func(&mut self, name: &'static str, body: Option<(usize, usize)>, sp: u32) {
        let i = self.funcs.len() as u32;
        self.funcs.push(FuncDecl { name: name.to_string(), body, sp, addr: FUNC_BASE + 16 * (i as u64 + 1) });
        self.fnames.insert(name, i);
    }
    pub fn func_at(&self, addr: u64) -> Option<u32> {
        if addr < FUNC_BASE + 16 || (addr - FUNC_BASE) % 16 != 0 { return None; }
        let i = (addr - FUNC_BASE) / 16 - 1;
        if (i as usize) < self.funcs.len() { Some(i as u32) } else { None }
    }
    pub fn global_at(&self, addr: u64) -> Option<u32> {
        let i = self.globals.partition_point(|g| g.addr <= addr);
        if i == 0 { None } else { Some(i as u32 - 1) }
    }
    fn resolve<'a>(&self, mut n: &'a str) -> &'a str where Self: 'a {
        while let Some(a) = self.aliases.get(n) { n = unsafe { std::mem::transmute::<&str, &'a str>(a) }; }
        n
    }
    pub fn addr_of(&self, name: &str) -> u64 {
        let name = self.resolve(name);
        if let Some(&g) = self.gnames.get(name) { return self.globals[g as usize].addr; }
        if let Some(&f) = self.fnames.get(name) { return self.funcs[f as usize].addr; }
        panic!("symex: unknown global @{}", name)
    }
    pub fn init_bytes(&self, g: u32) -> Vec<u8> {
        let gl = &self.globals[g as usize];
        let mut out = vec![0u8; gl.size as usize];
        if gl.external { return out; }
        let mut c = Cur::new(self, &self.text[gl.init.0..gl.init.1], gl.init.0);
        let ty = c.ty();
        let k = c.constant(&ty);
        write_const(&k, &ty, &mut out, 0);
        out
    }
    pub fn parse_func(&self, fi: u32) -> Func {
        let (s, e) = self.funcs[fi as usize].body.expect("body");
        FnParser::parse(self, &self.text[s..e], s, &self.funcs[fi as usize].name)
    }
    // ---- debug info -------------------------------------------------------------------------
    fn meta_text(&self, id: u32) -> &'static str { match self.meta.get(&id) { Some(&(a, b)) => &self.text[a..b], None => "" } }
    fn mfield(t: &str, k: &str) -> Option<u32> {
        let i = t.find(k)?;
        let r = &t[i + k.len()..];
        let r = r.strip_prefix('!').unwrap_or(r);
        let n: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
        n.parse().ok()
    }
    fn mstr(t: &str, k: &str) -> Option<String> {
        let i = t.find(k)?;
        let r = &t[i + k.len()..];
        let r = r.strip_prefix('"')?;
        Some(r[..r.find('"')?].to_string())
    }
    /// subprogram of a scope id
    pub fn subprogram(&self, mut id: u32) -> Option<u32> {
        for _ in 0..64 {
            let t = self.meta_text(id);
            if t.contains("DISubprogram(") { return Some(id); }
            id = Self::mfield(t, "scope: ")?;
        }
        None
    }
    /// (name, file, line) of a subprogram
    pub fn sp_info(&self, id: u32) -> (String, String, u32) {
        let t = self.meta_text(id);
        let file = Self::mfield(t, "file: ").map(|f| {
            let ft = self.meta_text(f);
            let n = Self::mstr(ft, "filename: ").unwrap_or_default();
            let d = Self::mstr(ft, "directory: ").unwrap_or_default();
            if n.starts_with('/') || d.is_empty() { n } else { format!("{}/{}", d, n) }
        }).unwrap_or_default();
        (Self::mstr(t, "linkageName: ").or_else(|| Self::mstr(t, "name: ")).unwrap_or_default(), file, Self::mfield(t, "line: ").unwrap_or(0))
    }
    /// chain of (subprogram, line) for a DILocation, innermost first
    pub fn loc_chain(&self, mut id: u32) -> Vec<(u32, u32)> {
        let mut v = vec![];
        for _ in 0..200 {
            if id == 0 { break; }
            let t = self.meta_text(id);
            if !t.contains("DILocation(") { break; }
            let line = Self::mfield(t, "line: ").unwrap_or(0);
            if let Some(sp) = Self::mfield(t, "scope: ").and_then(|s| self.subprogram(s)) { v.push((sp, line)); }
            match Self::mfield(t, "inlinedAt: ") { Some(i) => id = i, None => break }
        }
        v
    }
}

pub fn memchr(b: &[u8], mut i: usize, c: u8) -> usize {
    while i < b.len() && b[i] != c { i += 1; }
    i
}
fn num_at(b: &[u8], mut i: usize) -> u32 {
    let mut n = 0u32;
    while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as u32; i += 1; }
    n
}

/// A constant with enough structure to be written to memory.
#[derive(Clone, Debug)]
pub enum K { Int(u128), Agg(Vec<K>), Zero }

fn write_const(k: &K, ty: &Ty, out: &mut [u8], off: usize) {
    match (k, ty) {
        (K::Zero, _) => {}
        (K::Int(v), t) => {
            let n = t.size_store() as usize;
            for i in 0..n { out[off + i] = (v >> (8 * i)) as u8; }
        }
        (K::Agg(ks), Ty::Arr(t, _)) => { let s = t.size() as usize; for (i, k) in ks.iter().enumerate() { write_const(k, t, out, off + i * s); } }
        (K::Agg(ks), Ty::Vec(t, _)) => { let s = t.size() as usize; for (i, k) in ks.iter().enumerate() { write_const(k, t, out, off + i * s); } }
        (K::Agg(ks), Ty::Struct(fs, _)) => {
            let (_, offs) = ty.layout();
            for (i, k) in ks.iter().enumerate() { write_const(k, &fs[i], out, off + offs[i] as usize); }
        }
        _ => panic!("symex: write_const {:?} {:?}", k, ty),
    }
}

pub fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Arr(t, n) => V::A(Rc::new((0..*n).map(|_| zero_of(t)).collect())),
        Ty::Vec(t, n) => V::A(Rc::new((0..*n).map(|_| zero_of(t)).collect())),
        Ty::Struct(fs, _) => V::A(Rc::new(fs.iter().map(zero_of).collect())),
        _ => V::C(0),
    }
}
fn k_to_op(k: &K, ty: &Ty) -> Opnd {
    if let (K::Int(v), Ty::Int(n)) = (k, ty) { if *n > 64 { return Opnd::W(*v & crate::expr::mask(*n), *n); } }
    if let (K::Zero, Ty::Int(n)) = (k, ty) { if *n > 64 { return Opnd::W(0, *n); } }
    Opnd::K(k_to_v(k, ty))
}
fn k_to_v(k: &K, ty: &Ty) -> V {
    match (k, ty) {
        (K::Zero, t) => zero_of(t),
        (K::Int(v), t) => {
            let b = t.bits();
            if b > 64 { panic!("symex: wide constant inside aggregate"); }
            V::C((*v & crate::expr::mask(b)) as u64)
        }
        (K::Agg(ks), Ty::Arr(t, _)) => V::A(Rc::new(ks.iter().map(|k| k_to_v(k, t)).collect())),
        (K::Agg(ks), Ty::Vec(t, _)) => V::A(Rc::new(ks.iter().map(|k| k_to_v(k, t)).collect())),
        (K::Agg(ks), Ty::Struct(fs, _)) => V::A(Rc::new(ks.iter().zip(fs.iter()).map(|(k, t)| k_to_v(k, t)).collect())),
        _ => panic!("symex: k_to_v {:?} {:?}", k, ty),
    }
}

pub struct Cur<'m> {
    m: &'m Module,
    s: &'static str,
    b: &'static [u8],
    pub i: usize,
}

impl<'m> Cur<'m> {
    pub fn new(m: &'m Module, _s: &str, off: usize) -> Cur<'m> {
        let s = &m.text[off..off + _s.len()];
        Cur { m, s, b: s.as_bytes(), i: 0 }
    }
    fn die(&self, what: &str) -> ! {
        let a = self.i.saturating_sub(60).min(self.s.len());
        let e = (self.i + 60).min(self.s.len());
        panic!("symex: parse error: {} at ...{}<HERE>{}", what, String::from_utf8_lossy(&self.b[a..self.i.min(self.b.len())]), String::from_utf8_lossy(&self.b[self.i.min(self.b.len())..e]))
    }
    fn ws(&mut self) { while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t') { self.i += 1; } }
    fn peek(&self) -> u8 { if self.i < self.b.len() { self.b[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) { self.i += t.len(); true } else { false }
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { self.die(&format!("expected {}", t)); } }
    fn word(&mut self) -> &'static str {
        self.ws();
        let st = self.i;
        while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || matches!(self.b[self.i], b'_' | b'.')) { self.i += 1; }
        &self.s[st..self.i]
    }
    fn peek_word(&mut self) -> &'static str { let s = self.i; let w = self.word(); self.i = s; w }
    fn skip_parens(&mut self) {
        self.ws();
        let mut d = 0;
        loop {
            match self.b[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.b[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { self.i += 1; }
        self.s[st..self.i].parse().unwrap_or_else(|_| self.die("number"))
    }
    fn ty_start(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token")
                    || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
        }
    }
    pub fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.uint();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(Rc::new(t), n)
            }
            b'<' => {
                self.i += 1;
                if self.eat("{") {
                    let fs = self.tys("}");
                    self.expect(">");
                    return Ty::Struct(Rc::new(fs), true);
                }
                let n = self.uint();
                self.expect("x");
                let t = self.ty();
                self.expect(">");
                Ty::Vec(Rc::new(t), n as u32)
            }
            b'{' => { self.i += 1; let fs = self.tys("}"); Ty::Struct(Rc::new(fs), false) }
            b'%' => {
                let e = name_end(self.b, self.i + 1);
                let n = unq(&self.s[self.i + 1..e]);
                self.i = e;
                let (a, z) = self.m.types[n];
                let mut c = Cur::new(self.m, &self.m.text[a..z], a);
                c.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if self.s[self.i..].starts_with(" addrspace") { self.word(); self.skip_parens(); } Ty::Ptr }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "label" | "metadata" | "token" => Ty::Meta,
                    _ => {
                        if w.starts_with('i') { if let Ok(n) = w[1..].parse() { if n > 128 { self.die("integers wider than 128 bits are not modelled:"); } return Ty::Int(n); } }
                        self.die("type")
                    }
                }
            }
        }
    }
    fn tys(&mut self, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop {
            v.push(self.ty());
            if self.eat(end) { return v; }
            self.expect(",");
        }
    }
    fn global(&mut self) -> u64 {
        let e = name_end(self.b, self.i + 1);
        let n = unq(&self.s[self.i + 1..e]);
        self.i = e;
        self.m.addr_of(n)
    }
    fn kint(&mut self, ty: &Ty) -> u128 {
        match self.constant(ty) { K::Int(v) => v, K::Zero => 0, k => panic!("symex: integer constant expected: {:?}", k) }
    }
    pub fn constant(&mut self, ty: &Ty) -> K {
        self.ws();
        match self.peek() {
            b'@' => K::Int(self.global() as u128),
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.b.len() && (self.b[self.i].is_ascii_alphanumeric() || matches!(self.b[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
                let t = &self.s[st..self.i];
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let f = if let Some(h) = t.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { t.parse::<f64>().unwrap() };
                        K::Int(if *ty == Ty::F64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 })
                    }
                    _ => {
                        let w = ty.bits();
                        let v: u128 = if t.starts_with('-') { t.parse::<i128>().unwrap() as u128 } else { t.parse::<u128>().unwrap() };
                        K::Int(v & crate::expr::mask(w))
                    }
                }
            }
            b'+' => { // +inf
                self.i += 1;
                let w = self.word();
                match w { "inf" => K::Int(f64::INFINITY.to_bits() as u128), "nan" | "qnan" => K::Int(f64::NAN.to_bits() as u128), _ => self.die("float") }
            }
            b'[' => { self.i += 1; K::Agg(self.elems("]")) }
            b'{' => { self.i += 1; K::Agg(self.elems("}")) }
            b'<' => {
                self.i += 1;
                if self.eat("{") { let e = self.elems("}"); self.expect(">"); return K::Agg(e); }
                K::Agg(self.elems(">"))
            }
            b'c' if self.b[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.b[self.i] != b'"' {
                    if self.b[self.i] == b'\\' && self.b[self.i + 1] == b'\\' { v.push(K::Int(92)); self.i += 2; }
                    else if self.b[self.i] == b'\\' {
                        v.push(K::Int(u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).unwrap() as u128));
                        self.i += 3;
                    } else { v.push(K::Int(self.b[self.i] as u128)); self.i += 1; }
                }
                self.i += 1;
                K::Agg(v)
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => K::Int(1),
                    "false" | "null" => K::Int(0),
                    "zeroinitializer" | "undef" | "poison" | "none" => K::Zero,
                    "splat" => {
                        self.expect("(");
                        let t = self.ty();
                        let k = self.constant(&t);
                        self.expect(")");
                        let n = match ty { Ty::Vec(_, n) => *n as u64, Ty::Arr(_, n) => *n, _ => self.die("splat") };
                        K::Agg((0..n).map(|_| k.clone()).collect())
                    }
                    "getelementptr" => {
                        self.gep_flags();
                        self.expect("(");
                        let t = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let base = self.kint(&bt) as u64;
                        let mut idx = vec![];
                        while self.eat(",") {
                            self.eat("inrange");
                            let it = self.ty();
                            let v = self.kint(&it);
                            idx.push(crate::expr::sext128(v, it.bits()) as i64);
                        }
                        self.expect(")");
                        let mut off = base.wrapping_add((t.size() as i64).wrapping_mul(idx[0]) as u64);
                        let mut cur = t;
                        for &i in &idx[1..] {
                            let next = match &cur {
                                Ty::Struct(fs, _) => { off = off.wrapping_add(cur.layout().1[i as usize]); fs[i as usize].clone() }
                                Ty::Arr(e, _) | Ty::Vec(e, _) => { off = off.wrapping_add((e.size() as i64).wrapping_mul(i) as u64); (**e).clone() }
                                _ => self.die("gep const"),
                            };
                            cur = next;
                        }
                        K::Int(off as u128)
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast" => {
                        while !self.eat("(") { self.word(); }
                        let t = self.ty();
                        let v = self.kint(&t);
                        self.expect("to");
                        let t2 = self.ty();
                        self.expect(")");
                        let v = if w == "sext" { crate::expr::sext128(v, t.bits()) as u128 } else { v };
                        K::Int(v & crate::expr::mask(t2.bits()))
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                        while !self.eat("(") { self.word(); }
                        let t = self.ty();
                        let a = self.kint(&t);
                        self.expect(",");
                        let t = self.ty();
                        let b = self.kint(&t);
                        self.expect(")");
                        use crate::expr::Op as O;
                        let op = match w { "add" => O::Add, "sub" => O::Sub, "mul" => O::Mul, "xor" => O::Xor, "and" => O::And, "or" => O::Or, "shl" => O::Shl, _ => O::LShr };
                        K::Int(crate::expr::bin_eval(op, a, b, t.bits()))
                    }
                    _ => self.die(&format!("constant '{}'", w)),
                }
            }
        }
    }
    fn elems(&mut self, end: &str) -> Vec<K> {
        let mut v = vec![];
        if self.eat(end) { return v; }
        loop {
            let t = self.ty();
            v.push(self.constant(&t));
            if self.eat(end) { return v; }
            self.expect(",");
        }
    }
    fn gep_flags(&mut self) {
        loop {
            let w = self.peek_word();
            match w {
                "inbounds" | "nuw" | "nusw" | "nsw" => { self.word(); }
                "inrange" => { self.word(); self.skip_parens(); }
                _ => return,
            }
        }
    }
    /// skip parameter attributes up to the start of an operand
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            match self.peek() {
                b'%' | b'@' | b'0'..=b'9' | b'-' | b'+' | b'[' | b'{' | b'<' | b',' | b')' | b'!' => return,
                b'"' => { // string attribute
                    self.i += 1;
                    while self.b[self.i] != b'"' { self.i += 1; }
                    self.i += 1;
                    if self.peek() == b'=' { self.i += 2; while self.b[self.i] != b'"' { self.i += 1; } self.i += 1; }
                }
                b'c' if self.b[self.i + 1] == b'"' => return,
                _ => {
                    let st = self.i;
                    let w = self.word();
                    match w {
                        "true" | "false" | "null" | "zeroinitializer" | "undef" | "poison" | "none" | "splat" | "getelementptr"
                        | "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "add" | "sub" | "mul" | "xor" | "asm" => { self.i = st; return; }
                        "align" => { self.ws(); if self.peek() == b'(' { self.skip_parens(); } else { self.uint(); } }
                        "" => self.die("attribute"),
                        _ => { if self.peek() == b'(' { self.skip_parens(); } }
                    }
                }
            }
        }
    }
}

struct FnParser<'m> {
    c: Cur<'m>,
    regs: HashMap<&'static str, u32>,
    blocks: HashMap<&'static str, u32>,
    nblocks: u32,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn block(&mut self, n: &'static str) -> u32 {
        if let Some(&b) = self.blocks.get(n) { return b; }
        let b = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, b);
        b
    }
    fn local(&mut self) -> &'static str {
        self.c.ws();
        if self.c.peek() != b'%' { self.c.die("local"); }
        let e = name_end(self.c.b, self.c.i + 1);
        let n = unq(&self.c.s[self.c.i + 1..e]);
        self.c.i = e;
        n
    }
    fn op(&mut self, ty: &Ty) -> Opnd {
        self.c.ws();
        if self.c.peek() == b'%' { let n = self.local(); return Opnd::R(self.reg(n)); }
        if *ty == Ty::Meta {
            // metadata operand: skip to , or )
            let mut d = 0;
            while !(d == 0 && matches!(self.c.peek(), b',' | b')')) { if self.c.peek() == b'(' { d += 1 } if self.c.peek() == b')' { d -= 1 } self.c.i += 1; }
            return Opnd::K(V::C(0));
        }
        let k = self.c.constant(ty);
        k_to_op(&k, ty)
    }
    fn tyop(&mut self) -> (Ty, Opnd) {
        let t = self.c.ty();
        self.c.skip_attrs();
        let o = self.op(&t);
        (t, o)
    }
    fn label(&mut self) -> u32 { self.c.expect("label"); let n = self.local(); self.block(n) }

    fn parse(m: &'m Module, s: &str, off: usize, name: &str) -> Func {
        let mut p = FnParser { c: Cur::new(m, s, off), regs: HashMap::new(), blocks: HashMap::new(), nblocks: 0 };
        // header
        let at = p.c.s.find('@').unwrap();
        p.c.i = name_end(p.c.b, at + 1);
        p.c.expect("(");
        let mut nparams = 0;
        let mut unnamed = 0u32;
        if !p.c.eat(")") {
            loop {
                if p.c.eat("...") { p.c.expect(")"); break; }
                let _t = p.c.ty();
                p.c.skip_attrs();
                let n: &'static str = if p.c.peek() == b'%' { p.local() } else { Box::leak(format!("{}", unnamed).into_boxed_str()) };
                if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                p.reg(n);
                nparams += 1;
                if p.c.eat(")") { break; }
                p.c.expect(",");
            }
        }
        // skip to end of header line
        p.c.i = memchr(p.c.b, p.c.i, b'\n') + 1;
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Block)> = None;
        loop {
            // at line start
            if p.c.i >= p.c.b.len() { break; }
            let ls = p.c.i;
            let eol = memchr(p.c.b, ls, b'\n');
            let lb = &p.c.b[ls..eol];
            if lb.is_empty() { p.c.i = eol + 1; continue; }
            if lb[0] == b'}' { break; }
            if lb[0] == b';' { p.c.i = eol + 1; continue; }
            if lb[0] != b' ' {
                // label
                let e = if lb[0] == b'"' { name_end(lb, 0) } else { memchr(lb, 0, b':') };
                let n = unq(&p.c.s[ls..ls + e]);
                if let Some((i, b)) = cur.take() { put(&mut blocks, i, b); }
                let bi = p.block(n);
                cur = Some((bi, Block { phis: vec![], insts: vec![], dbg: vec![] }));
                p.c.i = eol + 1;
                continue;
            }
            if lb.starts_with(b"    #dbg") || lb.starts_with(b"  #dbg") { p.c.i = eol + 1; continue; }
            if cur.is_none() {
                let n: &'static str = Box::leak(format!("{}", unnamed).into_boxed_str());
                let bi = p.block(n);
                cur = Some((bi, Block { phis: vec![], insts: vec![], dbg: vec![] }));
            }
            let mut b = cur.take().unwrap();
            p.inst(&mut b.1);
            // end of the instruction: rest of its (last) line
            let eol = memchr(p.c.b, p.c.i, b'\n');
            let rest = &p.c.s[p.c.i.min(eol)..eol];
            let dbg = rest.rfind("!dbg !").map(|i| num_at(rest.as_bytes(), i + 6)).unwrap_or(0);
            while b.1.dbg.len() < b.1.insts.len() { b.1.dbg.push(dbg); }
            p.c.i = eol + 1;
            cur = Some(b);
        }
        if let Some((i, b)) = cur.take() { put(&mut blocks, i, b); }
        Func { hasher: name.contains("3sip") && name.contains("6Hasher5write"), name: name.to_string(), nregs: p.regs.len() as u32, nparams,
            blocks: blocks.into_iter().map(|b| b.expect("block defined")).collect() }
    }

    fn inst(&mut self, b: &mut Block) {
        self.c.ws();
        let mut dst = u32::MAX;
        if self.c.peek() == b'%' {
            let n = self.local();
            dst = self.reg(n);
            self.c.expect("=");
        }
        let mut w = self.c.word();
        while matches!(w, "tail" | "musttail" | "notail") { w = self.c.word(); }
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor"
            | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !self.c.ty_start() { self.c.word(); }
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect(",");
                let y = self.op(&t);
                let k = match w { "add" => BK::Add, "sub" => BK::Sub, "mul" => BK::Mul, "udiv" => BK::UDiv, "sdiv" => BK::SDiv, "urem" => BK::URem,
                    "srem" => BK::SRem, "shl" => BK::Shl, "lshr" => BK::LShr, "ashr" => BK::AShr, "and" => BK::And, "or" => BK::Or, "xor" => BK::Xor,
                    "fadd" => BK::FAdd, "fsub" => BK::FSub, "fmul" => BK::FMul, "fdiv" => BK::FDiv, _ => BK::FRem };
                Inst::Bin(k, t, dst, x, y)
            }
            "icmp" | "fcmp" => {
                let mut pw = self.c.word();
                while matches!(pw, "samesign" | "fast" | "nnan" | "ninf" | "nsz") { pw = self.c.word(); }
                let p = if w == "icmp" { match pw { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => self.c.die("icmp") } }
                else { match pw { "false" => Pred::FFalse, "oeq" => Pred::FOeq, "ogt" => Pred::FOgt, "oge" => Pred::FOge, "olt" => Pred::FOlt, "ole" => Pred::FOle, "one" => Pred::FOne,
                    "ord" => Pred::FOrd, "uno" => Pred::FUno, "ueq" => Pred::FUeq, "ugt" => Pred::FUgt, "uge" => Pred::FUge, "ult" => Pred::FUlt, "ule" => Pred::FUle, "une" => Pred::FUne, "true" => Pred::FTrue, _ => self.c.die("fcmp") } };
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect(",");
                let y = self.op(&t);
                Inst::Cmp(p, t, dst, x, y)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                while !self.c.ty_start() { self.c.word(); }
                let t = self.c.ty();
                let x = self.op(&t);
                self.c.expect("to");
                let t2 = self.c.ty();
                let k = match w { "zext" => CK::ZExt, "sext" => CK::SExt, "trunc" => CK::Trunc, "bitcast" => CK::Bit, "fptoui" => CK::FpToUi, "fptosi" => CK::FpToSi,
                    "uitofp" => CK::UiToFp, "sitofp" => CK::SiToFp, "fptrunc" => CK::FpTrunc, "fpext" => CK::FpExt, _ => CK::PtrInt };
                Inst::Cast(k, t, t2, dst, x)
            }
            "select" => {
                while !self.c.ty_start() { self.c.word(); }
                let (_, c) = self.tyop();
                self.c.expect(",");
                let (t, x) = self.tyop();
                self.c.expect(",");
                let (_, y) = self.tyop();
                Inst::Select(dst, t, c, x, y)
            }
            "load" => {
                while !self.c.ty_start() { self.c.word(); }
                let t = self.c.ty();
                self.c.expect(",");
                let (_, p) = self.tyop();
                Inst::Load(dst, t, p)
            }
            "store" => {
                while !self.c.ty_start() { self.c.word(); }
                let (t, v) = self.tyop();
                self.c.expect(",");
                let (_, p) = self.tyop();
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.c.gep_flags();
                let t = self.c.ty();
                self.c.expect(",");
                let (_, base) = self.tyop();
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while self.c.s[self.c.i..].starts_with(", ") && !self.c.s[self.c.i..].starts_with(", !") {
                    self.c.i += 2;
                    let (it, o) = self.tyop();
                    let (stride, next) = if first { (t.size(), t.clone()) } else {
                        match &cur {
                            Ty::Struct(fs, _) => {
                                let Opnd::K(V::C(k)) = o else { self.c.die("struct gep index") };
                                off = off.wrapping_add(cur.layout().1[k as usize]);
                                cur = fs[k as usize].clone();
                                continue;
                            }
                            Ty::Arr(e, _) | Ty::Vec(e, _) => (e.size(), (**e).clone()),
                            _ => self.c.die("gep"),
                        }
                    };
                    cur = next;
                    first = false;
                    match o {
                        Opnd::K(V::C(k)) => off = off.wrapping_add((crate::expr::sext128(k as u128, it.bits()) as i64 as u64).wrapping_mul(stride)),
                        o => dynv.push((o, it.bits(), stride)),
                    }
                }
                Inst::Gep(dst, base, off, dynv)
            }
            "alloca" => {
                self.c.eat("inalloca");
                let t = self.c.ty();
                let mut n = 1;
                if self.c.s[self.c.i..].starts_with(", i") { self.c.expect(","); let it = self.c.ty(); n = self.c.kint(&it) as u64; }
                Inst::Alloca(dst, t.size() * n)
            }
            "call" => {
                // flags, calling convention, return attributes
                loop {
                    if self.c.ty_start() { break; }
                    let w = self.c.word();
                    if w.is_empty() { self.c.die("call"); }
                    if w == "align" && self.c.peek() == b' ' { self.c.uint(); }
                    else if self.c.peek() == b'(' { self.c.skip_parens(); }
                }
                let rt = self.c.ty();
                self.c.ws();
                if self.c.peek() == b'(' { self.c.skip_parens(); }
                self.c.ws();
                let callee = match self.c.peek() {
                    b'@' => {
                        let a = self.c.global();
                        match self.c.m.func_at(a) { Some(f) => Callee::Func(f), None => self.c.die("call of non function") }
                    }
                    b'%' => { let n = self.local(); Callee::Ptr(Opnd::R(self.reg(n))) }
                    _ => {
                        if self.c.peek_word() == "asm" {
                            self.c.word();
                            loop { self.c.ws(); if self.c.peek() == b'"' { break; } self.c.word(); }
                            let st = self.c.i + 1;
                            self.c.i = st;
                            while self.c.peek() != b'"' { self.c.i += 1; }
                            let t = self.c.s[st..self.c.i].to_string();
                            self.c.i += 1;
                            self.c.expect(",");
                            self.c.ws();
                            self.c.i += 1;
                            while self.c.peek() != b'"' { self.c.i += 1; }
                            self.c.i += 1;
                            Callee::Asm(t)
                        } else {
                            let k = self.c.constant(&Ty::Ptr);
                            Callee::Ptr(k_to_op(&k, &Ty::Ptr))
                        }
                    }
                };
                self.c.expect("(");
                let mut args = vec![];
                let mut tys = vec![];
                if !self.c.eat(")") {
                    loop {
                        let t = self.c.ty();
                        if t == Ty::Meta { let o = self.op(&t); args.push(o); tys.push(t); }
                        else {
                            self.c.skip_attrs();
                            let o = self.op(&t);
                            args.push(o);
                            tys.push(t);
                        }
                        if self.c.eat(")") { break; }
                        self.c.expect(",");
                    }
                }
                let skip = match &callee {
                    Callee::Func(f) => {
                        let n = &self.c.m.funcs[*f as usize].name;
                        n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.invariant")
                    }
                    Callee::Asm(t) => t.is_empty() && rt == Ty::Void,
                    _ => false,
                };
                if skip { Inst::Nop } else { Inst::Call(if dst == u32::MAX { None } else { Some(dst) }, rt, callee, args, tys) }
            }
            "br" => {
                if self.c.peek_word() == "label" { let l = self.label(); Inst::Br(l) }
                else {
                    let (_, c) = self.tyop();
                    self.c.expect(",");
                    let a = self.label();
                    self.c.expect(",");
                    let z = self.label();
                    Inst::CondBr(c, a, z)
                }
            }
            "switch" => {
                let (t, v) = self.tyop();
                self.c.expect(",");
                let d = self.label();
                self.c.expect("[");
                let mut cs = vec![];
                while !self.c.eat("]") {
                    let ct = self.c.ty();
                    let k = self.c.kint(&ct) as u64;
                    self.c.expect(",");
                    let l = self.label();
                    cs.push((k, l));
                }
                Inst::Switch(v, t.bits(), d, cs)
            }
            "ret" => {
                let t = self.c.ty();
                if t == Ty::Void { Inst::Ret(None) } else { self.c.skip_attrs(); let o = self.op(&t); Inst::Ret(Some(o)) }
            }
            "unreachable" => Inst::Unreachable,
            "phi" => {
                while !self.c.ty_start() { self.c.word(); }
                let t = self.c.ty();
                let mut v = vec![];
                loop {
                    self.c.expect("[");
                    let o = self.op(&t);
                    self.c.expect(",");
                    let n = self.local();
                    let bl = self.block(n);
                    self.c.expect("]");
                    v.push((bl, o));
                    if !self.c.s[self.c.i..].starts_with(", [") { break; }
                    self.c.expect(",");
                }
                b.phis.push((dst, v));
                return;
            }
            "extractvalue" => {
                let (_, a) = self.tyop();
                let mut ix = vec![];
                while self.c.s[self.c.i..].starts_with(", ") && self.c.b[self.c.i + 2].is_ascii_digit() { self.c.i += 2; ix.push(self.c.uint() as u32); }
                Inst::ExtractVal(dst, a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyop();
                self.c.expect(",");
                let (_, v) = self.tyop();
                let mut ix = vec![];
                while self.c.s[self.c.i..].starts_with(", ") && self.c.b[self.c.i + 2].is_ascii_digit() { self.c.i += 2; ix.push(self.c.uint() as u32); }
                Inst::InsertVal(dst, t, a, v, ix)
            }
            "extractelement" => { let (_, a) = self.tyop(); self.c.expect(","); let (_, i) = self.tyop(); Inst::ExtractEl(dst, a, i) }
            "insertelement" => { let (t, a) = self.tyop(); self.c.expect(","); let (_, v) = self.tyop(); self.c.expect(","); let (_, i) = self.tyop(); Inst::InsertEl(dst, t, a, v, i) }
            "shufflevector" => {
                let (t, a) = self.tyop();
                self.c.expect(",");
                let (_, v) = self.tyop();
                self.c.expect(",");
                let (_, k) = self.tyop();
                let n = if let Ty::Vec(_, n) = t { n } else { 0 };
                Inst::Shuffle(dst, n, a, v, k)
            }
            "freeze" => { let (_, a) = self.tyop(); Inst::Copy(dst, a) }
            "fneg" => { while !self.c.ty_start() { self.c.word(); } let (t, a) = self.tyop(); Inst::FNeg(dst, t, a) }
            "fence" => Inst::Nop,
            _ => self.c.die(&format!("instruction '{}'", w)),
        };
        b.insts.push(i);
    }
}

fn put(v: &mut Vec<Option<Block>>, i: u32, b: Block) {
    while v.len() <= i as usize { v.push(None); }
    v[i as usize] = Some(b);
}

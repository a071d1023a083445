//! Intrinsics, allocation, the harness interface, and models of the operating system calls.
use crate::exec::*;
use crate::expr::Op as O;
use crate::expr::*;
use crate::ll::*;
use crate::state::*;
use crate::vfs::*;
use std::rc::Rc;

pub fn lookup(name: &str, has_body: bool) -> Option<Builtin> {
    if has_body {
        // library functions whose behaviour is replaced
        let n = name;
        if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("9panicking26panic_nounwind_nobacktrace") { return Some(b_panic); }
        if n.contains("9panicking") && (n.ends_with("rust_begin_unwind") || n.contains("panic_with_hook") || n.contains("19begin_panic_handler")) { return Some(b_panic); }
        if n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("8rust_oom") { return Some(b_panic); }
        if n.contains("13hashmap_random_keys") { return Some(b_hash_keys); }
        if n.contains("7process5abort") || n.contains("14abort_internal") || n.contains("7process4exit") { return Some(b_abort); }
        return None;
    }
    if let Some(r) = name.strip_prefix("llvm.") {
        let base = r.split('.').collect::<Vec<_>>();
        return Some(match base[0] {
            "memcpy" | "memmove" => b_memcpy,
            "memset" => b_memset,
            "umax" | "umin" | "smax" | "smin" => b_minmax(base[0]),
            "ctpop" => b_ctpop, "cttz" => b_cttz, "ctlz" => b_ctlz, "bswap" => b_bswap, "bitreverse" => b_bitreverse, "abs" => b_abs,
            "fshl" => b_fshl, "fshr" => b_fshr,
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => if base[1] == "with" { b_overflow(base[0]) } else { b_sat(base[0]) },
            "ucmp" => b_ucmp, "scmp" => b_scmp,
            "load" => b_load_relative,
            "trap" | "ubsantrap" | "debugtrap" => b_abort,
            "threadlocal" => b_arg0,
            "is" => b_zero,
            "fabs" => b_fabs,
            "expect" => b_arg0,
            "x86" => b_zero,
            "vector" => match base.get(2) { Some(&"or") => b_vreduce_or, Some(&"and") => b_vreduce_and, Some(&"add") => b_vreduce_add, _ => return None },
            "sideeffect" | "donothing" | "prefetch" | "va_start" | "va_end" => b_zero,
            _ => return None,
        });
    }
    Some(match name {
        "sx_pick" => b_pick, "sx_var" => b_var, "sx_assume" => b_assume, "sx_check" => b_check, "sx_cover" => b_cover,
        "sx_conc" => b_conc, "sx_out" => b_out, "sx_native" => b_zero, "sx_dump" => b_dump, "sx_redirect" => b_redirect,
        "malloc" => b_malloc, "calloc" => b_calloc, "realloc" => b_realloc, "free" => b_free, "posix_memalign" => b_memalign, "aligned_alloc" => b_aligned_alloc,
        "memcmp" => b_memcmp, "bcmp" => b_bcmp, "strlen" => b_strlen, "memcpy" | "memmove" => b_memcpy,
        "getenv" | "dlsym" | "secure_getenv" => b_zero,
        "getrandom" => b_getrandom,
        "syscall" => b_syscall,
        "__errno_location" => b_errno,
        "abort" | "exit" | "_exit" => b_abort,
        "pthread_self" | "gettid" | "getpid" => b_one,
        "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutex_init" | "pthread_mutex_destroy"
        | "pthread_cond_init" | "pthread_cond_destroy" | "pthread_attr_destroy" | "sched_yield" | "signal" | "sigaction" | "__cxa_thread_atexit_impl"
        | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "munmap" | "mprotect" | "fsync" | "fcntl" | "_Unwind_Backtrace" | "dl_iterate_phdr" => b_zero,
        "sysconf" => b_sysconf,
        "statx" | "sched_getaffinity" => b_enosys,
        "open64" | "open" => b_open, "read" => b_read, "write" => b_write, "close" => b_close, "lseek64" => b_lseek,
        "fstat64" => b_fstat, "stat64" | "lstat64" => b_stat, "mkdir" => b_mkdir, "unlink" => b_unlink,
        "opendir" => b_opendir, "readdir64" => b_readdir, "closedir" => b_closedir, "dirfd" => b_dirfd, "realpath" => b_realpath,
        _ => return None,
    })
}

fn c(v: u64) -> R<V> { Ok(V::C(v)) }
fn b_zero(_: &mut Engine, _: &mut State, _: &[V], rt: &Ty, _: &[Ty]) -> R<V> { Ok(if *rt == Ty::Void { V::C(0) } else { zero_of(rt) }) }
fn b_one(_: &mut Engine, _: &mut State, _: &[V], _: &Ty, _: &[Ty]) -> R<V> { c(1) }
fn b_arg0(_: &mut Engine, _: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { Ok(a[0].clone()) }
fn b_hash_keys(_: &mut Engine, _: &mut State, _: &[V], rt: &Ty, _: &[Ty]) -> R<V> { Ok(zero_of(rt)) }

fn read_str(e: &mut Engine, st: &State, p: u64, n: u64) -> String {
    match e.bytes(st, p, n) { Ok(b) => String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).into_owned(), Err(_) => String::new() }
}
fn b_panic(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let mut msg = String::new();
    let mut loc = String::new();
    if let (Some(V::C(p)), Some(V::C(q))) = (a.first(), a.get(1)) {
        if q & 1 == 1 && q >> 1 < 4096 { msg = read_str(e, st, *p, q >> 1); }
        else {
            let mut n = 64;
            let mut b = e.bytes(st, *p, n);
            while b.is_err() && n > 4 { n /= 2; b = e.bytes(st, *p, n); }
            if let Ok(b) = b {
                // literal pieces of the format template
                let mut i = 0;
                while i < b.len() {
                    let l = b[i].0 as usize;
                    if l == 0 { break; }
                    if l < 0x80 && i + 1 + l <= b.len() { msg += &String::from_utf8_lossy(&b[i + 1..i + 1 + l].iter().map(|x| x.0).collect::<Vec<_>>()); i += 1 + l; }
                    else { msg += "{}"; i += 1; }
                }
            }
        }
    }
    // the caller's location is the last pointer argument
    for v in a.iter().rev() {
        if let V::C(p) = v {
            let (x, n, l, col) = (e.load(st, *p, &Ty::Ptr), e.load(st, p + 8, &Ty::Int(64)), e.load(st, p + 16, &Ty::Int(32)), e.load(st, p + 20, &Ty::Int(32)));
            if let (Ok(V::C(x)), Ok(V::C(n)), Ok(V::C(l)), Ok(V::C(_))) = (x, n, l, col) {
                if n < 400 && l < 100000 && x >> 32 == 1 {
                    let f = read_str(e, st, x, n);
                    let f = f.strip_prefix("/repo/").unwrap_or(&f).to_string();
                    loc = format!("{}:{}", f, l);
                    break;
                }
            }
        }
    }
    let w = e.where_(st);
    Err(Stop::Fail(Fail { kind: "panic", id: 0, msg, loc: if loc.is_empty() { w } else { format!("{} | {}", loc, w) } }))
}
fn b_abort(_: &mut Engine, _: &mut State, _: &[V], _: &Ty, _: &[Ty]) -> R<V> { fail("abort", "abort or trap") }

// ---- harness interface --------------------------------------------------------------------------
fn new_var(e: &mut Engine, st: &mut State, width: u32, dsize: u32) -> (u32, E) {
    let seq = st.used.len() as u32;
    let x = e.p.var(seq, width, dsize);
    let id = e.p.support(x).trailing_zeros();
    while st.doms.len() <= id as usize { st.doms.push([0; 4]); st.model.push(0); }
    st.doms[id as usize] = full_dom(dsize);
    st.model[id as usize] = 0;
    st.dom_id = 0;
    st.used.push((id, dsize));
    (id, x)
}
fn b_pick(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let n = e.conc(st, &a[0])?;
    if n == 0 { return Err(Stop::Infeasible); }
    if n > 256 { return Err(Stop::Inconclusive("sx_pick over 256".into())); }
    if n == 1 {
        st.used.push((u32::MAX, 1));
        return c(0);
    }
    if let Some(v) = &e.cfg.inputs { let k = v.get(st.used.len()).copied().unwrap_or(0); st.used.push((u32::MAX, 1)); return c(k); }
    let (_, x) = new_var(e, st, 64, n as u32);
    Ok(V::S(x))
}
fn b_var(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let n = e.conc(st, &a[0])? as u32;
    if let Some(v) = &e.cfg.inputs { let k = v.get(st.used.len()).copied().unwrap_or(0); st.used.push((u32::MAX, 1)); return c(k & mask(n) as u64); }
    let (_, x) = new_var(e, st, n, 0);
    let r = e.p.zext(x, 64);
    Ok(V::S(r))
}
fn b_assume(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    match &a[0] {
        V::C(x) => if x & 1 == 1 { c(0) } else { Err(Stop::Infeasible) },
        V::S(x) => {
            let x = e.p.extract(*x, 0, 1);
            match e.assume(st.clone(), x)? { Some(s) => { *st = s; c(0) } None => Err(Stop::Infeasible) }
        }
        _ => panic!(),
    }
}
fn b_check(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (p, n) = (e.conc(st, &a[1])?, e.conc(st, &a[2])?);
    e.asserts += 1;
    st.asserts += 1;
    let bad = |e: &mut Engine, st: &State| {
        let msg = read_str(e, st, p, n);
        Err(Stop::Fail(Fail { kind: "check", id: 0, msg, loc: e.where_(st) }))
    };
    match &a[0] {
        V::C(x) => if x & 1 == 1 { c(0) } else { bad(e, st) },
        V::S(x) => {
            let x = e.p.extract(*x, 0, 1);
            let nx = e.p.not(x);
            e.asserts_sym += 1;
            match e.sat(st, &[nx], false)? {
                None => c(0),
                Some(m) => { for (v, k) in m { st.model[v as usize] = k; } bad(e, st) }
            }
        }
        _ => panic!(),
    }
}
fn b_cover(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (p, n) = (e.conc(st, &a[0])?, e.conc(st, &a[1])?);
    let s = read_str(e, st, p, n);
    let id = e.cover_id(&s);
    if !st.covers.contains(&id) { Rc::make_mut(&mut st.covers).push(id); }
    c(0)
}
fn b_conc(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { let v = e.conc(st, &a[0])?; c(v) }
fn b_dump(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    match &a[0] { V::S(x) => eprintln!("dump: {}", e.p.show(*x)), v => eprintln!("dump: {:?}", v) }
    let _ = st;
    c(0)
}
fn b_out(_: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let o = match &a[0] { V::C(x) => Out::C(*x), V::S(x) => Out::S(*x), _ => panic!() };
    Rc::make_mut(&mut st.outs).push(o);
    c(0)
}

// ---- allocation -----------------------------------------------------------------------------------
fn alloc(st: &mut State, n: u64) -> R<V> {
    if n > 1 << 30 { return Err(Stop::Inconclusive(format!("allocation of {} bytes", n))); }
    Ok(V::C(st.alloc(n as usize)))
}
fn b_malloc(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { let n = e.conc(st, &a[0])?; alloc(st, n) }
fn b_calloc(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { let n = e.conc(st, &a[0])?; let m = e.conc(st, &a[1])?; alloc(st, n * m) }
fn b_aligned_alloc(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { let n = e.conc(st, &a[1])?; alloc(st, n) }
fn b_memalign(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (p, n) = (e.conc(st, &a[0])?, e.conc(st, &a[2])?);
    let v = alloc(st, n)?;
    e.store(st, p, &Ty::Ptr, &v)?;
    c(0)
}
fn b_realloc(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (p, n) = (e.conc(st, &a[0])?, e.conc(st, &a[1])?);
    let v = alloc(st, n)?;
    let V::C(q) = v else { unreachable!() };
    if p != 0 {
        if p & 0xffff_ffff != 0 { return fail("memory", "realloc of an interior pointer"); }
        let old = match st.obj(p >> 32) { Some(o) => o.data.len() as u64, None => return fail("memory", "realloc of freed memory") };
        e.copy(st, q, p, old.min(n))?;
        st.free(p >> 32);
    }
    Ok(v)
}
fn b_free(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let p = e.conc(st, &a[0])?;
    if p == 0 { return c(0); }
    if p & 0xffff_ffff != 0 || !st.free(p >> 32) { return fail("memory", format!("free of invalid pointer {:#x}", p)); }
    c(0)
}
fn b_memcpy(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let n = e.conc(st, &a[2])?;
    if n == 0 { return Ok(a[0].clone()); }
    let (d, s) = (e.conc(st, &a[0])?, e.conc(st, &a[1])?);
    e.copy(st, d, s, n)?;
    c(d)
}
fn b_memset(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let n = e.conc(st, &a[2])?;
    if n == 0 { return c(0); }
    let d = e.conc(st, &a[0])?;
    match &a[1] {
        V::C(x) => { let x = *x as u8; e.with_obj_mut(st, d, n, |o, off| { for i in off..off + n as usize { o.set_byte(i, x); } })?; }
        V::S(x) => { let x = *x; e.with_obj_mut(st, d, n, |o, off| { for i in off..off + n as usize { o.set_sym(i, x); } })?; }
        _ => panic!(),
    }
    c(0)
}
fn cmp_bytes(e: &mut Engine, st: &mut State, a: &[V]) -> R<(Vec<(u8, E)>, Vec<(u8, E)>)> {
    let n = e.conc(st, &a[2])?;
    let (p, q) = if n == 0 { (0, 0) } else { (e.conc(st, &a[0])?, e.conc(st, &a[1])?) };
    Ok((e.bytes(st, p, n)?, e.bytes(st, q, n)?))
}
fn byte_e(e: &mut Engine, b: (u8, E)) -> E { if b.1 != 0 { b.1 } else { e.p.cst(b.0 as u128, 8) } }
fn b_bcmp(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (x, y) = cmp_bytes(e, st, a)?;
    // a concrete difference decides
    if x.iter().zip(y.iter()).any(|(p, q)| p.1 == 0 && q.1 == 0 && p.0 != q.0) { return c(1); }
    let mut r = e.p.cst(1, 1);
    for (p, q) in x.into_iter().zip(y) {
        if p == q && p.1 == 0 { continue; }
        let (pe, qe) = (byte_e(e, p), byte_e(e, q));
        let t = e.p.bin(O::Eq, pe, qe);
        r = e.p.bin(O::And, r, t);
    }
    let nr = e.p.not(r);
    let z = e.p.zext(nr, 32);
    Ok(e.v_of(z))
}
fn b_memcmp(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (x, y) = cmp_bytes(e, st, a)?;
    let mut r = e.p.cst(0, 32);
    for (p, q) in x.into_iter().zip(y).rev() {
        let (pe, qe) = (byte_e(e, p), byte_e(e, q));
        let eq = e.p.bin(O::Eq, pe, qe);
        let lt = e.p.bin(O::Ult, pe, qe);
        let (m1, p1) = (e.p.cst(u128::MAX, 32), e.p.cst(1, 32));
        let d = e.p.ite(lt, m1, p1);
        r = e.p.ite(eq, r, d);
    }
    Ok(e.v_of(r))
}
fn b_strlen(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let p = e.conc(st, &a[0])?;
    let mut n = 0;
    loop {
        let b = e.load(st, p + n, &Ty::Int(8))?;
        if e.conc(st, &b)? == 0 { return c(n); }
        n += 1;
    }
}

// ---- arithmetic intrinsics ------------------------------------------------------------------------
fn b_minmax(k: &str) -> Builtin {
    fn go(e: &mut Engine, a: &[V], rt: &Ty, p: Pred) -> R<V> {
        if let (Ty::Vec(t, _), V::A(x), V::A(y)) = (rt, &a[0], &a[1]) {
            let mut v = vec![];
            for (q, r) in x.iter().zip(y.iter()) { v.push(go(e, &[q.clone(), r.clone()], t, p)?); }
            return Ok(V::A(Rc::new(v)));
        }
        match e.cmp(p, rt, &a[0], &a[1])? {
            V::C(1) => Ok(a[0].clone()),
            V::C(_) => Ok(a[1].clone()),
            V::S(cnd) => { let w = rt.bits(); let (x, y) = (e.e_of(&a[0], w), e.e_of(&a[1], w)); let r = e.p.ite(cnd, x, y); Ok(e.v_of(r)) }
            _ => panic!(),
        }
    }
    match k {
        "umax" => |e, _, a, rt, _| go(e, a, rt, Pred::Uge), "umin" => |e, _, a, rt, _| go(e, a, rt, Pred::Ule),
        "smax" => |e, _, a, rt, _| go(e, a, rt, Pred::Sge), _ => |e, _, a, rt, _| go(e, a, rt, Pred::Sle),
    }
}
fn unary(e: &mut Engine, a: &V, w: u32, f: fn(u64, u32) -> u64, build: fn(&mut Pool, E, u32) -> E) -> R<V> {
    match a {
        V::C(x) => c(f(*x, w)),
        V::S(x) => {
            if let Some((v, t)) = e.p.as_tab(*x) {
                let t: Vec<u64> = t.iter().map(|x| f(*x, w)).collect();
                let r = e.p.tab(v, t, w);
                return Ok(e.v_of(r));
            }
            let r = build(&mut e.p, *x, w);
            Ok(e.v_of(r))
        }
        V::A(_) => Err(Stop::Inconclusive("vector intrinsic".into())),
    }
}
fn b_ctpop(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    unary(e, &a[0], rt.bits(), |x, _| x.count_ones() as u64, |p, x, w| {
        let mut r = p.cst(0, w);
        for i in 0..w { let b = p.extract(x, i, 1); let z = p.zext(b, w); r = p.bin(O::Add, r, z); }
        r
    })
}
fn b_cttz(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    unary(e, &a[0], rt.bits(), |x, w| if x == 0 { w as u64 } else { x.trailing_zeros() as u64 }, |p, x, w| {
        let mut r = p.cst(w as u128, w);
        for i in (0..w).rev() { let b = p.extract(x, i, 1); let k = p.cst(i as u128, w); r = p.ite(b, k, r); }
        r
    })
}
fn b_ctlz(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    unary(e, &a[0], rt.bits(), |x, w| if x == 0 { w as u64 } else { (x.leading_zeros() - (64 - w)) as u64 }, |p, x, w| {
        let mut r = p.cst(w as u128, w);
        for i in 0..w { let b = p.extract(x, i, 1); let k = p.cst((w - 1 - i) as u128, w); r = p.ite(b, k, r); }
        r
    })
}
fn b_bswap(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    unary(e, &a[0], rt.bits(), |x, w| x.swap_bytes() >> (64 - w), |p, x, w| {
        let mut r = p.extract(x, 0, 8);
        for i in 1..w / 8 { let b = p.extract(x, i * 8, 8); r = p.bin(O::Concat, r, b); }
        r
    })
}
fn b_bitreverse(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    unary(e, &a[0], rt.bits(), |x, w| x.reverse_bits() >> (64 - w), |p, x, w| {
        let mut r = p.extract(x, 0, 1);
        for i in 1..w { let b = p.extract(x, i, 1); r = p.bin(O::Concat, r, b); }
        r
    })
}
fn b_abs(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    unary(e, &a[0], rt.bits(), |x, w| { let s = sext128(x as u128, w); (s.unsigned_abs() & mask(w)) as u64 }, |p, x, w| {
        let z = p.cst(0, w);
        let n = p.bin(O::Sub, z, x);
        let cnd = p.bin(O::Slt, x, z);
        p.ite(cnd, n, x)
    })
}
fn fsh(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, left: bool) -> R<V> {
    let w = rt.bits();
    let k = e.conc(st, &a[2])? as u32 % w;
    let (h, l) = (e.e_of(&a[0], w), e.e_of(&a[1], w));
    let r = if k == 0 { if left { h } else { l } }
    else {
        let s = if left { k } else { w - k };
        // top w bits of (h:l) << s
        let hi = e.p.extract(h, 0, w - s);
        let lo = e.p.extract(l, w - s, s);
        e.p.bin(O::Concat, hi, lo)
    };
    Ok(e.v_of(r))
}
fn b_fshl(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> { fsh(e, st, a, rt, true) }
fn b_fshr(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> { fsh(e, st, a, rt, false) }

/// (result, overflow bit) of an arithmetic operation at width w
fn ovf(e: &mut Engine, k: &str, a: &V, b: &V, w: u32) -> (E, E) {
    let signed = k.starts_with('s');
    let op = match &k[1..] { "add" => O::Add, "sub" => O::Sub, _ => O::Mul };
    let w2 = if op == O::Mul { (2 * w).min(128) } else { w + 1 };
    let (x, y) = (e.e_of(a, w), e.e_of(b, w));
    let r = e.p.bin(op, x, y);
    if w <= 64 {
        // no overflow when the operands' ranges exclude it
        let (p, q, f) = (e.p.rng[x as usize], e.p.rng[y as usize], Rng::full(w));
        let (lo, hi) = match (op, signed) {
            (O::Add, true) => (p.sl + q.sl, p.sh + q.sh),
            (O::Sub, true) => (p.sl - q.sh, p.sh - q.sl),
            (O::Add, false) => (p.ul + q.ul, p.uh + q.uh),
            (O::Sub, false) => (p.ul - q.uh, p.uh - q.ul),
            (_, true) => {
                let c = [p.sl * q.sl, p.sl * q.sh, p.sh * q.sl, p.sh * q.sh];
                (*c.iter().min().unwrap(), *c.iter().max().unwrap())
            }
            (_, false) => (0, p.uh.saturating_mul(q.uh)),
        };
        let (bl, bh) = if signed { (f.sl, f.sh) } else { (f.ul, f.uh) };
        if lo >= bl && hi <= bh { return (r, e.p.cst(0, 1)); }
    }
    let (x2, y2) = if signed { (e.p.sext(x, w2), e.p.sext(y, w2)) } else { (e.p.zext(x, w2), e.p.zext(y, w2)) };
    let r2 = e.p.bin(op, x2, y2);
    let re = if signed { e.p.sext(r, w2) } else { e.p.zext(r, w2) };
    let eq = e.p.bin(O::Eq, re, r2);
    (r, e.p.not(eq))
}
fn b_overflow(k: &str) -> Builtin {
    fn go(e: &mut Engine, a: &[V], rt: &Ty, k: &str) -> R<V> {
        let Ty::Struct(fs, _) = rt else { panic!() };
        let (r, o) = ovf(e, k, &a[0], &a[1], fs[0].bits());
        Ok(V::A(Rc::new(vec![e.v_of(r), e.v_of(o)])))
    }
    match k {
        "uadd" => |e, _, a, rt, _| go(e, a, rt, "uadd"), "usub" => |e, _, a, rt, _| go(e, a, rt, "usub"), "umul" => |e, _, a, rt, _| go(e, a, rt, "umul"),
        "sadd" => |e, _, a, rt, _| go(e, a, rt, "sadd"), "ssub" => |e, _, a, rt, _| go(e, a, rt, "ssub"), _ => |e, _, a, rt, _| go(e, a, rt, "smul"),
    }
}
fn b_sat(k: &str) -> Builtin {
    fn go(e: &mut Engine, a: &[V], rt: &Ty, k: &str) -> R<V> {
        if let (Ty::Vec(t, _), V::A(x), V::A(y)) = (rt, &a[0], &a[1]) {
            let mut v = vec![];
            for (q, r) in x.iter().zip(y.iter()) { v.push(go(e, &[q.clone(), r.clone()], t, k)?); }
            return Ok(V::A(Rc::new(v)));
        }
        let w = rt.bits();
        let (r, o) = ovf(e, k, &a[0], &a[1], w);
        let lim = match k {
            "uadd" => e.p.cst(u128::MAX, w),
            "usub" => e.p.cst(0, w),
            _ => {
                // by the sign of the first operand
                let x = e.e_of(&a[0], w);
                let z = e.p.cst(0, w);
                let neg = e.p.bin(O::Slt, x, z);
                let (mn, mx) = (e.p.cst(1u128 << (w - 1), w), e.p.cst(mask(w - 1), w));
                e.p.ite(neg, mn, mx)
            }
        };
        let v = e.p.ite(o, lim, r);
        Ok(e.v_of(v))
    }
    match k {
        "uadd" => |e, _, a, rt, _| go(e, a, rt, "uadd"), "usub" => |e, _, a, rt, _| go(e, a, rt, "usub"),
        "sadd" => |e, _, a, rt, _| go(e, a, rt, "sadd"), _ => |e, _, a, rt, _| go(e, a, rt, "ssub"),
    }
}
fn cmp3(e: &mut Engine, a: &[V], rt: &Ty, t: &Ty, p: Pred) -> R<V> {
    let w = rt.bits();
    let lt = e.cmp(p, t, &a[0], &a[1])?;
    let gt = e.cmp(p, t, &a[1], &a[0])?;
    let (l, g) = (e.e_of(&lt, 1), e.e_of(&gt, 1));
    let (m1, p1, z) = (e.p.cst(u128::MAX, w), e.p.cst(1, w), e.p.cst(0, w));
    let r = e.p.ite(g, p1, z);
    let r = e.p.ite(l, m1, r);
    Ok(e.v_of(r))
}
fn b_ucmp(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, t: &[Ty]) -> R<V> { cmp3(e, a, rt, &t[0], Pred::Ult) }
fn b_scmp(e: &mut Engine, _: &mut State, a: &[V], rt: &Ty, t: &[Ty]) -> R<V> { cmp3(e, a, rt, &t[0], Pred::Slt) }
fn b_load_relative(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let p = e.conc(st, &a[0])?;
    match &a[1] {
        V::S(x) if e.p.as_tab(*x).is_some() => {
            let (v, t) = e.p.as_tab(*x).unwrap();
            let t = t.to_vec();
            let d = st.doms[v as usize];
            let mut out = vec![0u64; t.len()];
            let mut first = None;
            for i in dom_iter(d) {
                let V::C(r) = e.load(st, p.wrapping_add(t[i]), &Ty::Int(32))? else { panic!() };
                out[i] = p.wrapping_add(r as i32 as i64 as u64);
                first.get_or_insert(out[i]);
            }
            for i in 0..t.len() { if !dom_has(&d, i) { out[i] = first.unwrap(); } }
            let r = e.p.tab(v, out, 64);
            Ok(e.v_of(r))
        }
        x => {
            let off = e.conc(st, x)?;
            let V::C(r) = e.load(st, p.wrapping_add(off), &Ty::Int(32))? else { panic!() };
            c(p.wrapping_add(r as i32 as i64 as u64))
        }
    }
}
fn b_fabs(_: &mut Engine, _: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { if let V::C(x) = a[0] { c(x & !(1 << 63)) } else { Err(Stop::Inconclusive("symbolic float".into())) } }
fn vreduce(e: &mut Engine, a: &[V], t: &[Ty], k: BK) -> R<V> {
    let (Ty::Vec(t, _), V::A(x)) = (&t[0], &a[0]) else { panic!() };
    let mut r = x[0].clone();
    for y in &x[1..] { r = e.bin(k, t, &r, y)?; }
    Ok(r)
}
fn b_vreduce_or(e: &mut Engine, _: &mut State, a: &[V], _: &Ty, t: &[Ty]) -> R<V> { vreduce(e, a, t, BK::Or) }
fn b_vreduce_and(e: &mut Engine, _: &mut State, a: &[V], _: &Ty, t: &[Ty]) -> R<V> { vreduce(e, a, t, BK::And) }
fn b_vreduce_add(e: &mut Engine, _: &mut State, a: &[V], _: &Ty, t: &[Ty]) -> R<V> { vreduce(e, a, t, BK::Add) }

// ---- operating system -----------------------------------------------------------------------------
const ERRNO: u64 = FIRST_OBJ << 32;
fn b_errno(_: &mut Engine, _: &mut State, _: &[V], _: &Ty, _: &[Ty]) -> R<V> { c(ERRNO) }
fn errno(e: &mut Engine, st: &mut State, n: u64, rt: &Ty) -> R<V> { e.store(st, ERRNO, &Ty::Int(32), &V::C(n))?; Ok(V::C(mask(rt.bits()) as u64)) }
fn b_enosys(e: &mut Engine, st: &mut State, _: &[V], rt: &Ty, _: &[Ty]) -> R<V> { errno(e, st, 38, rt) }
fn b_sysconf(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { c(if e.conc(st, &a[0])? == 84 { 1 } else { 4096 }) } // one processor
fn b_getrandom(_: &mut Engine, _: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { Ok(a[1].clone()) }
fn b_syscall(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    match e.conc(st, &a[0])? {
        318 => Ok(a[2].clone()), // getrandom: zeros
        202 => c(0),             // futex
        186 => c(1),             // gettid
        _ => errno(e, st, 38, rt),
    }
}
fn cstr(e: &mut Engine, st: &mut State, p: &V) -> R<String> {
    let p = e.conc(st, p)?;
    let mut b = vec![];
    loop {
        let v = e.load(st, p + b.len() as u64, &Ty::Int(8))?;
        let x = e.conc(st, &v)? as u8;
        if x == 0 { return Ok(Vfs::norm(&String::from_utf8_lossy(&b))); }
        b.push(x);
    }
}
fn b_open(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let path = cstr(e, st, &a[0])?;
    let flags = e.conc(st, &a[1])?;
    let fs = Rc::make_mut(&mut st.fs);
    let dir = fs.is_dir(&path);
    if !dir && !fs.files.contains_key(&path) {
        let parent = path.rsplit_once('/').map(|x| x.0).unwrap_or("");
        if flags & 0o100 == 0 || !fs.is_dir(&Vfs::norm(parent)) { return errno(e, st, 2, rt); }
        fs.files.insert(path.clone(), Rc::new(Obj::new(0)));
    }
    if dir && flags & 3 != 0 { return errno(e, st, 21, rt); }
    if flags & 0o1000 != 0 { fs.files.insert(path.clone(), Rc::new(Obj::new(0))); }
    fs.fds.push(Some(Fd { path, pos: 0, dir }));
    c(fs.fds.len() as u64 + 2)
}
fn fdi(e: &mut Engine, st: &mut State, v: &V) -> R<usize> {
    let mut fd = e.conc(st, v)?;
    if fd < 3 { if let Some(t) = st.fs.std[fd as usize] { fd = t; } }
    Ok((fd as usize).wrapping_sub(3))
}
/// sx_redirect(stream, fd): the stream is that file from here on, or the original one if fd is negative
fn b_redirect(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let (s, t) = (e.conc(st, &a[0])? as u32 as usize, e.conc(st, &a[1])? as u32 as i32);
    Rc::make_mut(&mut st.fs).std[s] = if t < 0 { None } else { Some(t as u64) };
    c(0)
}
fn b_close(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let i = fdi(e, st, &a[0])?;
    if let Some(f) = Rc::make_mut(&mut st.fs).fds.get_mut(i) { *f = None; }
    c(0)
}
fn b_read(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let i = fdi(e, st, &a[0])?;
    if i > usize::MAX / 2 { return c(0); } // standard input, not redirected: at its end
    let (p, n) = (e.conc(st, &a[1])?, e.conc(st, &a[2])? as usize);
    let fs = Rc::make_mut(&mut st.fs);
    let (path, pos, dir) = match fs.fds.get_mut(i) { Some(Some(f)) => (f.path.clone(), f.pos, f.dir), _ => return errno(e, st, 9, rt) };
    if dir { return errno(e, st, 21, rt); }
    let o = fs.files[&path].clone();
    let k = n.min(o.data.len().saturating_sub(pos));
    fs.fds[i].as_mut().unwrap().pos += k;
    if k > 0 {
        e.with_obj_mut(st, p, k as u64, |t, off| {
            for j in 0..k {
                t.set_byte(off + j, o.data[pos + j]);
                if let Some(s) = &o.sym { if s[pos + j] != 0 { t.set_sym(off + j, s[pos + j]); } }
            }
        })?;
    }
    c(k as u64)
}
fn b_write(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let fd = e.conc(st, &a[0])?;
    let n = e.conc(st, &a[2])?;
    if fd < 3 && st.fs.std[fd as usize].is_none() { return c(n); }
    let p = e.conc(st, &a[1])?;
    let bs = e.bytes(st, p, n)?;
    let i = fdi(e, st, &a[0])?;
    let fs = Rc::make_mut(&mut st.fs);
    let (path, pos) = match fs.fds.get_mut(i) { Some(Some(f)) => { let r = (f.path.clone(), f.pos); f.pos += n as usize; r } _ => return errno(e, st, 9, rt) };
    let o = Rc::make_mut(fs.files.get_mut(&path).unwrap());
    let end = pos + n as usize;
    if o.data.len() < end { o.data.resize(end, 0); if let Some(s) = &mut o.sym { s.resize(end, 0); } }
    for (j, (b, s)) in bs.into_iter().enumerate() { if s != 0 { o.set_sym(pos + j, s); } else { o.set_byte(pos + j, b); } }
    c(n)
}
fn b_lseek(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let i = fdi(e, st, &a[0])?;
    let off = e.conc(st, &a[1])? as i64;
    let wh = e.conc(st, &a[2])?;
    let fs = Rc::make_mut(&mut st.fs);
    let Some(Some(f)) = fs.fds.get(i) else { return errno(e, st, 9, rt) };
    let base = match wh { 0 => 0, 1 => f.pos as i64, _ => fs.files.get(&f.path).map(|o| o.data.len() as i64).unwrap_or(0) };
    fs.fds[i].as_mut().unwrap().pos = (base + off) as usize;
    c((base + off) as u64)
}
fn put_stat(e: &mut Engine, st: &mut State, path: &str, p: u64) -> R<V> {
    let (mode, size) = match st.fs.files.get(path) { Some(o) => (0o100644u64, o.data.len() as u64), None => (0o040755, 4096) };
    e.with_obj_mut(st, p, 144, |o, off| { for i in 0..144 { o.set_byte(off + i, 0); } })?;
    e.store(st, p + 16, &Ty::Int(64), &V::C(1))?;
    e.store(st, p + 24, &Ty::Int(32), &V::C(mode))?;
    e.store(st, p + 48, &Ty::Int(64), &V::C(size))?;
    e.store(st, p + 56, &Ty::Int(64), &V::C(4096))?;
    c(0)
}
fn b_fstat(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let i = fdi(e, st, &a[0])?;
    let p = e.conc(st, &a[1])?;
    let path = match st.fs.fds.get(i) { Some(Some(f)) => f.path.clone(), _ => return errno(e, st, 9, rt) };
    put_stat(e, st, &path, p)
}
fn b_stat(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let path = cstr(e, st, &a[0])?;
    let p = e.conc(st, &a[1])?;
    if !st.fs.exists(&path) { return errno(e, st, 2, rt); }
    put_stat(e, st, &path, p)
}
fn b_mkdir(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let path = cstr(e, st, &a[0])?;
    if st.fs.exists(&path) { return errno(e, st, 17, rt); }
    let parent = Vfs::norm(path.rsplit_once('/').map(|x| x.0).unwrap_or(""));
    if !st.fs.is_dir(&parent) { return errno(e, st, 2, rt); }
    Rc::make_mut(&mut st.fs).dirs.insert(path);
    c(0)
}
fn b_unlink(e: &mut Engine, st: &mut State, a: &[V], rt: &Ty, _: &[Ty]) -> R<V> {
    let path = cstr(e, st, &a[0])?;
    if Rc::make_mut(&mut st.fs).files.remove(&path).is_none() { return errno(e, st, 2, rt); }
    c(0)
}
fn b_realpath(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let path = cstr(e, st, &a[0])?;
    if !st.fs.exists(&path) { e.store(st, ERRNO, &Ty::Int(32), &V::C(2))?; return c(0); }
    let p = st.alloc(path.len() + 1);
    e.with_obj_mut(st, p, path.len() as u64, |o, off| { o.data[off..off + path.len()].copy_from_slice(path.as_bytes()); })?;
    c(p)
}
// directory streams: an object holding fd and the buffer for one entry
fn b_opendir(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let path = cstr(e, st, &a[0])?;
    if !st.fs.is_dir(&path) { e.store(st, ERRNO, &Ty::Int(32), &V::C(if st.fs.exists(&path) { 20 } else { 2 }))?; return c(0); }
    let fs = Rc::make_mut(&mut st.fs);
    fs.fds.push(Some(Fd { path, pos: 0, dir: true }));
    let fd = fs.fds.len() as u64 + 2;
    let d = st.alloc(16 + 300);
    e.store(st, d, &Ty::Int(64), &V::C(fd))?;
    c(d)
}
fn b_dirfd(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { let d = e.conc(st, &a[0])?; e.load(st, d, &Ty::Int(32)) }
fn b_closedir(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> { let d = e.conc(st, &a[0])?; st.free(d >> 32); c(0) }
fn b_readdir(e: &mut Engine, st: &mut State, a: &[V], _: &Ty, _: &[Ty]) -> R<V> {
    let d = e.conc(st, &a[0])?;
    let V::C(fd) = e.load(st, d, &Ty::Int(64))? else { panic!() };
    let fs = Rc::make_mut(&mut st.fs);
    let f = fs.fds[fd as usize - 3].as_mut().unwrap();
    let pre = if f.path == "/" { "/".to_string() } else { format!("{}/", f.path) };
    let mut names: Vec<(String, u8)> = vec![];
    for k in fs.files.keys() { if let Some(r) = k.strip_prefix(&pre) { if !r.contains('/') { names.push((r.to_string(), 8)); } } }
    for k in fs.dirs.iter() { if let Some(r) = k.strip_prefix(&pre) { if !r.contains('/') { names.push((r.to_string(), 4)); } } }
    names.sort();
    if f.pos >= names.len() { return c(0); }
    let (n, t) = names[f.pos].clone();
    f.pos += 1;
    let ent = d + 16;
    e.with_obj_mut(st, ent, 290, |o, off| {
        for i in 0..290 { o.set_byte(off + i, 0); }
        o.data[off] = 1;
        o.data[off + 16] = 32;
        o.data[off + 17] = 1;
        o.data[off + 18] = t;
        o.data[off + 19..off + 19 + n.len()].copy_from_slice(n.as_bytes());
    })?;
    c(ent)
}

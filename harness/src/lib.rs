//! Harness side of the symbolic executor: intrinsics and small helpers.
pub mod dict;
pub mod filters;
pub mod model;
pub mod tokens;

extern "C" {
    fn sx_pick(n: u64) -> u64;
    fn sx_var(bits: u32) -> u64;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, m: *const u8, l: u64);
    fn sx_cover(m: *const u8, l: u64);
    fn sx_conc(x: u64) -> u64;
    fn sx_out(x: u64);
    fn sx_native() -> i32;
    fn sx_dump(x: u64);
    fn sx_redirect(stream: i32, fd: i32);
    fn sx_args(argc: i32, argv: *const *const u8, envp: *const *const u8);
}
/// symbolic index below n
pub fn pick(n: usize) -> usize { unsafe { sx_pick(n as u64) as usize } }
/// index below n, forked to a concrete value per path
pub fn choose(n: usize) -> usize { let x = pick(n); conc(x) }
pub fn var_u64() -> u64 { unsafe { sx_var(64) } }
pub fn var_u32() -> u32 { unsafe { sx_var(32) as u32 } }
pub fn var_u16() -> u16 { unsafe { sx_var(16) as u16 } }
pub fn var_i16() -> i16 { unsafe { sx_var(16) as i16 } }
pub fn var_u8() -> u8 { unsafe { sx_var(8) as u8 } }
pub fn var_bool() -> bool { unsafe { sx_var(1) != 0 } }
pub fn flag() -> bool { choose(2) == 1 }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { sx_check(c, m.as_ptr(), m.len() as u64) } }
pub fn cover(m: &str) { unsafe { sx_cover(m.as_ptr(), m.len() as u64) } }
pub fn conc(x: usize) -> usize { unsafe { sx_conc(x as u64) as usize } }
pub fn out(x: u64) { unsafe { sx_out(x) } }
pub fn out_str(s: &str) {
    unsafe { sx_out(s.len() as u64) }
    for b in s.as_bytes() { unsafe { sx_out(*b as u64) } }
}
pub fn dump(x: u64) { unsafe { sx_dump(x) } }
pub fn native() -> bool { unsafe { sx_native() != 0 } }

/// run `f` as the program called with these arguments: its result and what it prints
pub fn as_program<R>(args: &[&str], stdin: &str, f: impl FnOnce() -> R) -> (R, String) {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let s: &'static Vec<Vec<u8>> = Box::leak(Box::new(args.iter().map(|a| { let mut v = a.as_bytes().to_vec(); v.push(0); v }).collect()));
    let mut p: Vec<*const u8> = s.iter().map(|v| v.as_ptr()).collect();
    p.push(std::ptr::null());
    let p: &'static Vec<*const u8> = Box::leak(Box::new(p));
    unsafe { sx_args(args.len() as i32, p.as_ptr(), std::ptr::null()) }
    let (i, o) = (scratch().join("stdin"), scratch().join("stdout"));
    std::fs::write(&i, stdin).unwrap();
    let i = std::fs::File::open(i).unwrap();
    let file = std::fs::File::create(&o).unwrap();
    std::io::stdout().flush().unwrap();
    unsafe { sx_redirect(0, i.as_raw_fd()); sx_redirect(1, file.as_raw_fd()); }
    let r = f();
    std::io::stdout().flush().unwrap();
    unsafe { sx_redirect(0, -1); sx_redirect(1, -1); }
    drop(file);
    (r, std::fs::read_to_string(o).unwrap())
}
/// a string of `len` symbolic picks from `alphabet`
pub fn text(alphabet: &[&str], len: usize) -> String {
    let mut s = String::new();
    for _ in 0..len { s.push_str(alphabet[pick(alphabet.len())]); }
    s
}
/// a string of 0..=max symbolic picks from `alphabet`
pub fn text_upto(alphabet: &[&str], max: usize) -> String { let n = choose(max + 1); text(alphabet, n) }

/// deterministic scratch directory: in-memory in the engine, a fresh private directory natively
pub fn scratch() -> std::path::PathBuf {
    if native() {
        let d = std::path::PathBuf::from(std::env::var("SX_SCRATCH").expect("SX_SCRATCH"));
        std::fs::create_dir_all(&d).unwrap();
        d
    } else {
        let d = std::path::PathBuf::from("/scratch");
        std::fs::create_dir_all(&d).unwrap();
        d
    }
}

#[macro_export]
macro_rules! entries {
    ($($name:ident => $f:path;)*) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() { $f() })*
        fn main() {
            let a = std::env::args().nth(1).unwrap_or_default();
            match a.as_str() {
                $(stringify!($name) => $name(),)*
                "list" => { $(println!("{}", stringify!($name));)* }
                _ => { eprintln!("unknown entry {}", a); std::process::exit(79); }
            }
            println!("SX-DONE");
        }
    };
}

/// append one arbitrary character whose UTF-8 encoding has `n` bytes, its bytes symbolic
pub fn any_char_n(s: &mut String, n: usize) {
    let v = unsafe { s.as_mut_vec() };
    let c = |lo: u8, hi: u8| { let b = var_u8(); assume(b >= lo); assume(b <= hi); b };
    match n {
        1 => v.push(c(0, 0x7f)),
        2 => { v.push(c(0xc2, 0xdf)); v.push(c(0x80, 0xbf)); }
        3 => {
            let a = c(0xe0, 0xef);
            let b = c(0x80, 0xbf);
            assume(a != 0xe0 || b >= 0xa0);
            assume(a != 0xed || b <= 0x9f);
            v.push(a);
            v.push(b);
            v.push(c(0x80, 0xbf));
        }
        _ => {
            let a = c(0xf0, 0xf4);
            let b = c(0x80, 0xbf);
            assume(a != 0xf0 || b >= 0x90);
            assume(a != 0xf4 || b <= 0x8f);
            v.push(a);
            v.push(b);
            v.push(c(0x80, 0xbf));
            v.push(c(0x80, 0xbf));
        }
    }
}
/// append one arbitrary character (every Unicode scalar value)
pub fn any_char(s: &mut String) { let n = choose(4) + 1; any_char_n(s, n) }

/// a filtered text as a sequence of stretches: (input stretch, its output)
pub struct Seg { pub i: String, pub o: String }
/// the output of a character filter and its offset map against the stretches it should consist of
pub fn offsets_point_back(text: &str, segs: &[Seg], output: &str, correct: &dyn Fn(usize) -> usize) {
    let mut want = String::new();
    for s in segs { want.push_str(&s.o); }
    check(output == want, "the output is the text with the stretches replaced");
    // every offset: within the input, never decreasing
    let mut prev = 0;
    for o in 0..=output.len() {
        let c = correct(o);
        check(c <= text.len(), "a corrected offset is within the input");
        check(c >= prev, "corrected offsets never decrease");
        prev = c;
    }
    check(correct(output.len()) == text.len(), "the end of the output is the end of the input");
    // every boundary between stretches; where stretches were removed, either side of what was removed
    let (mut o, mut lo, mut k) = (0, 0, 0);
    loop {
        let mut hi = lo;
        while k < segs.len() && segs[k].o.is_empty() { hi += segs[k].i.len(); k += 1; }
        let c = correct(o);
        check(c == lo || c == hi, "a boundary is the boundary of the same stretch in the input");
        if lo != hi { cover("removed") }
        if k == segs.len() { check(hi == text.len(), "the stretches cover the input"); break; }
        if segs[k].o.len() > segs[k].i.len() { cover("longer") }
        if segs[k].o.len() < segs[k].i.len() { cover("shorter") }
        if segs[k].i == segs[k].o { cover("left alone") }
        o += segs[k].o.len();
        lo = hi + segs[k].i.len();
        k += 1;
    }
}

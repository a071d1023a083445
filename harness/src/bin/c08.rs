//! C08: connection costs are those of the matrix definition.
use harness::*;
use lindera_core::connection::ConnectionCostMatrix;
use lindera_dictionary_builder::CostMatrixBuilderOptions;

/// the text of a symbolic number: optional minus, up to three symbolic digits
fn number(s: &mut Vec<u8>, neg: bool, digits: usize) -> i32 {
    let mut v = 0;
    if neg { s.push(b'-'); }
    for _ in 0..digits { let d = var_u8(); assume(d >= b'0' && d <= b'9'); s.push(d); v = v * 10 + (d - b'0') as i32; }
    if neg { -v } else { v }
}
fn build(content: &[u8], may_static: bool) -> ConnectionCostMatrix {
    let dir = scratch();
    let (i, o) = (dir.join("in"), dir.join("out"));
    std::fs::create_dir_all(&i).unwrap();
    std::fs::create_dir_all(&o).unwrap();
    std::fs::write(i.join("matrix.def"), content).unwrap();
    CostMatrixBuilderOptions::default().builder().unwrap().build(&i, &o).unwrap();
    let m = lindera_dictionary::DictionaryLoader::connection(o.clone()).unwrap();
    if !may_static || flag() { return m; }
    let bytes: &'static [u8] = Box::leak(std::fs::read(o.join("matrix.mtx")).unwrap().into_boxed_slice());
    ConnectionCostMatrix::load_static(bytes)
}
fn verify(m: &ConnectionCostMatrix, nf: usize, nb: usize, want: &[i32]) {
    // any pair
    let (f, b) = (pick(nf), pick(nb));
    check(m.cost(f as u32, b as u32) == want[f * nb + b], "the cost of a pair is the one given");
    for f in 0..nf { for b in 0..nb {
        let c = m.cost(f as u32, b as u32);
        check(c == want[f * nb + b], "the cost of every pair is the one given");
        out(c as i64 as u64);
    } }
}
/// every subset of the pairs listed, in either order; symbolic costs of one to two digits and either sign
fn pairs() {
    let (nf, nb) = [(2, 3), (3, 2), (1, 4)][choose(3)];
    let n = nf * nb;
    let mut want = vec![i16::MAX as i32; n];
    let mut s = format!("{} {}\n", nf, nb).into_bytes();
    let rev = flag();
    for i in 0..n {
        let p = if rev { n - 1 - i } else { i };
        match choose(3) {
            0 => cover("unlisted"),
            k => {
                s.extend_from_slice(format!("{} {} ", p / nb, p % nb).as_bytes());
                want[p] = number(&mut s, k == 2, 1);
                s.push(b'\n');
                cover(if k == 2 { "negative" } else { "positive" });
            }
        }
    }
    verify(&build(&s, false), nf, nb, &want);
}
/// five-digit costs: the whole 16-bit range
fn wide() {
    let mut s = b"2 2\n0 0 ".to_vec();
    let neg = flag();
    let v = number(&mut s, neg, 5);
    assume(v >= -32768 && v <= 32767);
    s.extend_from_slice(b"\n0 1 -1\n1 1 32767\n");
    verify(&build(&s, true), 2, 2, &[v, -1, 32767, 32767]);
    cover(if neg { "negative" } else { "positive" });
}
/// the same pair twice: the later line counts; extra blanks
fn repeated() {
    let mut s = b"2  2 \n0 1 7\n 1\t0 ".to_vec();
    let a = number(&mut s, flag(), 2);
    s.extend_from_slice(b"\n0 1 ");
    let b = number(&mut s, flag(), 2);
    verify(&build(&s, true), 2, 2, &[32767, b, a, 32767]);
    cover("checked");
}
/// raw matrix data with arbitrary costs, owned and static
fn raw() {
    let (nf, nb) = [(3usize, 4usize), (4, 3), (1, 1), (5, 2)][choose(4)];
    let c: Vec<i16> = (0..nf * nb).map(|_| var_i16()).collect();
    let mut v = vec![];
    v.extend_from_slice(&(nf as u16).to_le_bytes());
    v.extend_from_slice(&(nb as u16).to_le_bytes());
    for x in &c { v.extend_from_slice(&x.to_le_bytes()); }
    let m = if flag() { ConnectionCostMatrix::load(&v) } else { ConnectionCostMatrix::load_static(Box::leak(v.into_boxed_slice())) };
    let want: Vec<i32> = c.iter().map(|x| *x as i32).collect();
    verify(&m, nf, nb, &want);
    cover("checked");
}
/// many left contexts (ids that need two bytes)
fn tall() {
    let mut s = b"40000 2\n39999 1 ".to_vec();
    let a = number(&mut s, true, 2);
    s.extend_from_slice(b"\n32768 0 ");
    let b = number(&mut s, false, 2);
    s.push(b'\n');
    let m = build(&s, true);
    check(m.cost(39999, 1) == a && m.cost(32768, 0) == b && m.cost(0, 1) == 32767 && m.cost(39999, 0) == 32767, "large context ids");
    cover("checked");
}
/// many right contexts
fn broad() {
    let mut s = b"2 40000\n1 39999 ".to_vec();
    let a = number(&mut s, true, 2);
    s.extend_from_slice(b"\n0 32768 ");
    let b = number(&mut s, false, 2);
    s.push(b'\n');
    let m = build(&s, true);
    check(m.cost(1, 39999) == a && m.cost(0, 32768) == b && m.cost(0, 1) == 32767 && m.cost(1, 0) == 32767, "large context ids");
    cover("checked");
}
/// sizes whose product needs more than 16 bits
fn square() {
    let (nf, nb) = [(300, 300), (257, 256), (700, 120)][choose(3)];
    let all = flag();
    let mut s = format!("{} {}\n", nf, nb).into_bytes();
    let free = [(0, 0), (nf - 1, nb - 1), (nf - 1, 0), (0, nb - 1), (218, 110)];
    let cost = |f: usize, b: usize| (f * 31 + b * 7) as i32 % 60000 - 30000;
    let mut want = vec![];
    if all { for f in 0..nf { for b in 0..nb { if !free.contains(&(f, b)) { s.extend_from_slice(format!("{} {} {}\n", f, b, cost(f, b)).as_bytes()); } } } }
    for (f, b) in free {
        s.extend_from_slice(format!("{} {} ", f, b).as_bytes());
        want.push(number(&mut s, f != 0, 2));
        s.push(b'\n');
    }
    let m = build(&s, true);
    for f in 0..nf { for b in 0..nb {
        let c = m.cost(f as u32, b as u32);
        let w = match free.iter().position(|x| *x == (f, b)) { Some(i) => want[i], None if all => cost(f, b), None => i16::MAX as i32 };
        check(c == w, "the cost of every pair is the one given");
    } }
    for w in want { out(w as u64); }
    cover("checked");
}
/// more than four million pairs
fn huge() {
    let (nf, nb) = (67usize, 65535usize);
    let at = [(0usize, 0usize), (0, nb - 1), (64, 1), (nf - 1, 0), (nf - 1, nb - 1), (33, 40000)];
    let (m, want) = if flag() {
        let c: Vec<i16> = at.iter().map(|_| var_i16()).collect();
        let mut v = vec![0u8; 4 + nf * nb * 2];
        v[..2].copy_from_slice(&(nf as u16).to_le_bytes());
        v[2..4].copy_from_slice(&(nb as u16).to_le_bytes());
        for (k, (f, b)) in at.iter().enumerate() { let i = 4 + 2 * (f * nb + b); v[i..i + 2].copy_from_slice(&c[k].to_le_bytes()); }
        let m = if flag() { ConnectionCostMatrix::load(&v) } else { ConnectionCostMatrix::load_static(Box::leak(v.into_boxed_slice())) };
        cover("stored");
        (m, c.iter().map(|c| *c as i32).collect::<Vec<_>>())
    } else {
        let mut s = format!("{} {}\n", nf, nb).into_bytes();
        let mut want = vec![];
        for (f, b) in at { s.extend_from_slice(format!("{} {} ", f, b).as_bytes()); want.push(number(&mut s, f == 64, 1)); s.push(b'\n'); }
        cover("built");
        (build(&s, false), want)
    };
    for ((f, b), w) in at.iter().zip(&want) { check(m.cost(*f as u32, *b as u32) == *w, "the cost of the pair"); out(*w as u64); }
    let d = m.cost(1, 1);
    check(d == 0 || d == 32767, "of a pair not given");
}
entries! { sx_entry_c08_huge => huge; sx_entry_c08_pairs => pairs; sx_entry_c08_wide => wide; sx_entry_c08_repeated => repeated; sx_entry_c08_raw => raw; sx_entry_c08_tall => tall; sx_entry_c08_broad => broad; sx_entry_c08_square => square; }

//! C19: malformed dictionary sources are reported as errors.
use harness::*;
use lindera_core::character_definition::CharacterDefinitionsBuilder;
use lindera_core::dictionary::Dictionary;
use lindera_core::unknown_dictionary::parse_unk;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_dictionary_builder::{CharDefBuilderOptions, CostMatrixBuilderOptions, DictBuilderOptions, UnkBuilderOptions, UserDictBuilderOptions};
use std::borrow::Cow;
use std::fs;
use std::path::PathBuf;

fn dirs() -> (PathBuf, PathBuf) {
    let s = scratch();
    let (i, o) = (s.join("in"), s.join("out"));
    fs::create_dir_all(&i).unwrap();
    fs::create_dir_all(&o).unwrap();
    (i, o)
}

// ---- the connection matrix
fn cell(s: &str) -> Option<i32> { s.parse::<i32>().ok() }
/// sizes and costs of a matrix source; None when it is malformed
fn reference(s: &str) -> Option<(usize, usize, Vec<i16>)> {
    let mut it = s.lines();
    let fields = |l: &str| l.split_whitespace().map(cell).collect::<Option<Vec<i32>>>();
    let h = fields(it.next()?)?;
    if h.len() < 2 || h[0] < 0 || h[1] < 0 || h[0] > 65535 || h[1] > 65535 { return None; }
    let (f, b) = (h[0] as usize, h[1] as usize);
    let mut m = vec![i16::MAX; f * b];
    for l in it {
        let v = fields(l)?;
        if v.len() < 3 || v[0] < 0 || v[0] >= h[0] || v[1] < 0 || v[1] >= h[1] || v[2] < -32768 || v[2] > 32767 { return None; }
        m[v[0] as usize * b + v[1] as usize] = v[2] as i16;
    }
    Some((f, b, m))
}
/// lenient: blank lines after the header may be skipped
fn matrix_of(s: &str) {
    let (i, o) = dirs();
    fs::write(i.join("matrix.def"), s).unwrap();
    let r = CostMatrixBuilderOptions::default().builder().unwrap().build(&i, &o);
    let strict = reference(s);
    let mut lines = s.lines();
    let header = lines.next().unwrap_or("").to_string();
    let blank = lines.clone().any(|l| l.trim().is_empty());
    let lenient = if blank { reference(&(header + "\n" + &lines.filter(|l| !l.trim().is_empty()).map(|l| format!("{}\n", l)).collect::<String>())) } else { None };
    match r {
        Err(_) => { cover("rejected"); check(strict.is_none(), "a well-formed matrix is accepted"); }
        Ok(()) => {
            let want = if strict.is_some() { strict } else { lenient };
            check(want.is_some(), "a malformed matrix is an error");
            let (f, b, m) = want.unwrap();
            let d = DictionaryLoader::connection(o).unwrap();
            for l in 0..f { for r in 0..b { cover("cost"); check(d.cost(l as u32, r as u32) == m[l * b + r] as i32, "the cost given, or the largest for a pair not listed"); } }
        }
    }
}
const HEADERS: &[&str] = &["2 3", "1 1", "", "2", "2 -1", "-1 2", "x 2", "65536 1", "1 65536", " 2\t3 ", "2 3 4", "0 3", "2147483648 1", "2 3.0", "4294967297 1", "-65535 1"];
const CELLS: &[&str] = &["0 0 5", "1 2 -7", "", "0", "0 1", "2 0 1", "0 3 1", "1 -1 1", "-1 2 1", "1 2 32768", "0 2 -32769", "0 2 65535", "0 0 x", "  1\t1  9 ", "0 2 -32768", "0 0 32767", "1 1 1 1", "65536 0 1", "0 65536 1", "4294967296 0 1", "0 0 99999999999"];
/// headers and lines of every shape
fn matrix() {
    let mut s = HEADERS[choose(HEADERS.len())].to_string();
    for _ in 0..choose(3) { s += "\n"; s += CELLS[choose(CELLS.len())]; }
    if flag() { s += "\n"; }
    matrix_of(&s);
}
/// costs and ids of symbolic digits
fn matrix_digits() {
    let mut s = String::from("3 2\n0 0 1\n");
    let d = |s: &mut String, n: usize| for _ in 0..n { s.push((b'0' + pick(10) as u8) as char) };
    match choose(4) {
        0 => { s += "1 1 "; s.push_str(["1", "32", "33", "65", "98"][choose(5)]); d(&mut s, 3); }
        1 => { s += "1 1 -"; s.push_str(["1", "32", "33", "65", "98"][choose(5)]); d(&mut s, 3); }
        2 => { d(&mut s, 1); s += " 1 -77"; }
        _ => { s += "1 "; d(&mut s, 1); s += " -77"; }
    }
    // the numbers decide everything else: compare with a parse of the same digits
    matrix_of(&s);
}

// ---- unknown words
const UNKNUM: &[&str] = &["0", "65535", "65536", "-1", "32767", "32768", "-32768", "-32769", "x", "", " 1", "4294967297", "1.0", "+5"];
fn unk_line(n: usize, at: usize, v: &str) -> String {
    let mut f: Vec<String> = ["DEFAULT", "1", "2", "3", "*", "*"].iter().take(n).map(|s| s.to_string()).collect();
    if at < n { f[at] = v.into(); }
    f.join(",")
}
/// numbers and field counts of unk.def
fn unk() {
    let cats = vec!["DEFAULT".to_string(), "KANJI".to_string()];
    let (at, v) = (choose(3) + 1, UNKNUM[choose(UNKNUM.len())]);
    let n = choose(3) + 4;
    let expect = choose(3) + 4;
    let first = flag();
    let mut s = unk_line(n, at, v);
    if first { s = unk_line(expect, 9, "") + "\n" + &s; }
    if flag() { s += "\n"; }
    unk_of(&cats, &s, expect);
}
fn unk_of(cats: &[String], s: &str, expect: usize) {
    let want: Option<Vec<(usize, u16, u16, i16)>> = s.lines().map(|l| {
        let f: Vec<&str> = l.split(',').collect();
        if f.len() != expect { return None; }
        Some((cats.iter().position(|c| c == f[0]).unwrap_or(9), f[1].parse().ok()?, f[2].parse().ok()?, f[3].parse().ok()?))
    }).collect();
    match (parse_unk(cats, s, expect), want) {
        (Err(_), w) => { cover("rejected"); check(w.is_none(), "a well-formed file is accepted"); }
        (Ok(_), None) => check(false, "a malformed file is an error"),
        (Ok(u), Some(w)) => for c in 0..cats.len() {
            let got = u.lookup_word_ids(lindera_core::character_definition::CategoryId(c));
            let want: Vec<&(usize, u16, u16, i16)> = w.iter().filter(|e| e.0 == c).collect();
            check(got.len() == want.len(), "as many entries as lines of the category");
            for (g, w) in got.iter().zip(want) { cover("entry"); let e = u.word_entry(*g); check(e.left_id == w.1 && e.right_id == w.2 && e.word_cost == w.3, "the numbers given"); }
        },
    }
}
/// numbers of symbolic digits
fn unk_digits() {
    let cats = vec!["DEFAULT".to_string()];
    let mut v = String::new();
    let at = choose(4);
    if at == 3 { v.push('-'); }
    v.push_str(["", "32", "33", "65", "98"][choose(5)]);
    for _ in 0..3 { v.push((b'0' + pick(10) as u8) as char); }
    unk_of(&cats, &unk_line(6, [1, 2, 3, 3][at], &v), 6);
}
/// through the builder of the dictionary part
fn unk_built() {
    let (i, o) = dirs();
    let (at, v) = (choose(3) + 1, UNKNUM[choose(UNKNUM.len())]);
    let s = unk_line([3, 6, 7][choose(3)], at, v);
    fs::write(i.join("unk.def"), &s).unwrap();
    let cd = dict::chardef("DEFAULT 0 1 0\n");
    let r = UnkBuilderOptions::default().unk_fields_num(6).builder().unwrap().build(&i, &cd, &o);
    let f: Vec<&str> = s.split(',').collect();
    let want = if f.len() == 6 { (|| Some((f[1].parse::<u16>().ok()?, f[2].parse::<u16>().ok()?, f[3].parse::<i16>().ok()?)))() } else { None };
    check(r.is_ok() == want.is_some(), "a malformed file is an error, a well-formed one is not");
    if let Some(w) = want {
        cover("entry");
        let e = DictionaryLoader::unknown_dict(o).unwrap().word_entry(0);
        check((e.left_id, e.right_id, e.word_cost) == w, "the numbers given");
    } else { cover("rejected") }
}

// ---- character definitions
#[derive(Clone)]
enum Line { Category(&'static str, bool, bool, u32), Range(u32, u32, Vec<&'static str>), Blank, Bad }
fn lines() -> Vec<(&'static str, Line)> {
    use Line::*;
    vec![
        ("DEFAULT 0 1 0", Category("DEFAULT", false, true, 0)), ("KANJI 1 0 2", Category("KANJI", true, false, 2)), ("KANJI 0 1 3", Category("KANJI", false, true, 3)),
        ("0x4E00..0x9FFF KANJI", Range(0x4e00, 0x9fff, vec!["KANJI"])), ("0x3041 HIRA KANJI", Range(0x3041, 0x3041, vec!["HIRA", "KANJI"])), ("0x309F..0x3041 HIRA", Range(0x309f, 0x3041, vec!["HIRA"])), ("HIRA 0 0 1", Category("HIRA", false, false, 1)),
        ("0xD800..0xDFFF KANJI", Range(0xd800, 0xdfff, vec!["KANJI"])), ("0xFEFF KANJI", Range(0xfeff, 0xfeff, vec!["KANJI"])), ("0x0000..0xFFFF KANJI", Range(0, 0xffff, vec!["KANJI"])), ("0xFFFE HIRA", Range(0xfffe, 0xfffe, vec!["HIRA"])),
        ("0x3042", Range(0x3042, 0x3042, vec![])), ("# 0x", Blank), ("", Blank),
        ("0x", Bad), ("0x10000 KANJI", Bad), ("0x3041..0x3042..0x3043 KANJI", Bad), ("0xGG KANJI", Bad), ("0x3041.. KANJI", Bad), ("KANJI 1 0", Bad), ("KANJI 1 0 2 3", Bad), ("KANJI x 0 2", Bad), ("KANJI 1 -1 2", Bad), ("KANJI 1 0 4294967296", Bad), ("0x3041..0x3042 # KANJI", Range(0x3041, 0x3042, vec![])),
    ]
}
fn chardef_of(ls: &[(&'static str, Line)], cd: Option<lindera_core::character_definition::CharacterDefinitions>) {
    use Line::*;
    let mut defs: Vec<(&str, bool, bool, u32)> = vec![];
    let (mut bad, mut twice) = (false, false);
    for (_, l) in ls {
        match l {
            Bad => bad = true,
            Category(n, a, b, c) => { if defs.iter().any(|d| d.0 == *n) { twice = true } else { defs.push((n, *a, *b, *c)); } }
            _ => {}
        }
    }
    let undefined = ls.iter().any(|(_, l)| if let Range(_, _, c) = l { c.iter().any(|c| !defs.iter().any(|d| d.0 == *c)) } else { false });
    let Some(cd) = cd else { cover("rejected"); check(bad || twice || undefined, "a well-formed file is accepted"); return };
    check(!bad, "a malformed line is an error");
    // twice or undefined: an error, or definitions that keep to the lines
    let x = var_u32();
    assume(x < 0x110000);
    assume(!(0xd800..0xe000).contains(&x));
    let c = unsafe { char::from_u32_unchecked(x) };
    let mut want: Vec<&str> = vec![];
    for (_, l) in ls { if let Range(lo, hi, cs) = l { if *lo <= x && x <= *hi { for c in cs { if !want.contains(c) { want.push(c); } } } } }
    if want.is_empty() && defs.iter().any(|d| d.0 == "DEFAULT") { want.push("DEFAULT"); }
    let got = cd.lookup_categories(c);
    check(got.len() == want.len(), "as many categories as the lines assign");
    for (g, w) in got.iter().zip(&want) {
        cover("category");
        check(cd.category_name(*g) == *w, "the categories the lines assign");
        if let Some(d) = defs.iter().find(|d| d.0 == *w) {
            let s = cd.lookup_definition(*g);
            check(twice || (s.invoke, s.group, s.length) == (d.1, d.2, d.3), "the settings of the category's own line");
        }
    }
}
/// three lines of every kind, at any place
fn chardef() {
    let all = lines();
    let mut ls: Vec<(&'static str, Line)> = (0..choose(3) + 1).map(|_| all[choose(all.len())].clone()).collect();
    match choose(3) { 0 => {} 1 => ls.insert(0, all[0].clone()), _ => ls.push(all[0].clone()) }
    let s: String = ls.iter().map(|l| format!("{}\n", l.0)).collect();
    let mut b = CharacterDefinitionsBuilder::default();
    let r = b.parse(&s);
    chardef_of(&ls, if r.is_ok() { Some(b.build()) } else { None });
}
/// through the builder of the dictionary part
fn chardef_built() {
    let all = lines();
    let (i, o) = dirs();
    let ls = vec![all[0].clone(), all[choose(all.len())].clone(), all[choose(4) + 3].clone(), all[1].clone()];
    let s: String = ls.iter().map(|l| format!("{}\n", l.0)).collect();
    fs::write(i.join("char.def"), &s).unwrap();
    let r = CharDefBuilderOptions::default().builder().unwrap().build(&i, &o);
    chardef_of(&ls, r.ok().map(|_| DictionaryLoader::char_def(o).unwrap()));
}
/// every four hexadecimal digits as a code point
fn codepoint() {
    let mut s = String::from("DEFAULT 0 1 0\nKANJI 1 0 0\n0x");
    let mut v = 0u32;
    for i in 0..4 {
        let n = if i == 0 { choose(16) } else { pick(16) };
        s.push(b"0123456789ABCDEF"[n] as char);
        v = v * 16 + n as u32;
    }
    s += " KANJI\n";
    let mut b = CharacterDefinitionsBuilder::default();
    let r = b.parse(&s);
    check(r.is_ok(), "every code point of four digits is accepted");
    let cd = b.build();
    let x = var_u32();
    assume(x < 0x110000);
    assume(!(0xd800..0xe000).contains(&x));
    let got = cd.lookup_categories(unsafe { char::from_u32_unchecked(x) });
    check(got.len() == 1, "one category");
    check((cd.category_name(got[0]) == "KANJI") == (x == v), "the character listed and no other");
    cover(if x == v { "listed" } else { "default" });
}

// ---- rows
fn row(s: &[&str]) -> Vec<String> { s.iter().map(|s| s.to_string()).collect() }
/// rows of every number of fields in a lexicon
fn lexicon() {
    let (i, o) = dirs();
    let (skip, flexible) = (flag(), flag());
    let mut rows: Vec<Vec<String>> = (0..choose(3)).map(|n| { let k = choose(7); let mut r = row(&["あ", "1", "2", "3", "d", "e", "f"]); r[0] = ["a", "あ"][n].into(); r.truncate(k + 1); r }).collect();
    if flag() { rows.push(row(&["b", "7", "8", "9", "x", "y", "z"])); }
    fs::write(i.join("a.csv"), rows.iter().map(|r| r.join(",") + "\n").collect::<String>()).unwrap();
    let r = DictBuilderOptions::default().flexible_csv(flexible).skip_invalid_cost_or_id(skip).builder().unwrap().build(&i, &o);
    lexicon_of(&rows, r.is_ok(), skip, &o, !flexible && rows.iter().any(|r| r.len() != rows[0].len()));
}
fn lexicon_of(rows: &[Vec<String>], ok: bool, skip: bool, o: &PathBuf, uneven: bool) {
    let entry = |r: &Vec<String>| -> Option<(u16, u16, i16, Vec<String>)> { if r.len() < 4 || r[0].contains('\0') { return None; } Some((r[1].trim().parse().ok()?, r[2].trim().parse().ok()?, r[3].trim().parse().ok()?, if r.len() == 4 { vec!["".into()] } else { r[4..].to_vec() })) };
    let bad = rows.iter().any(|r| entry(r).is_none());
    let used: Vec<&Vec<String>> = rows.iter().filter(|r| entry(r).is_some()).collect();
    if !ok { cover("rejected"); check(bad || uneven || used.is_empty() || rows.iter().any(|r| r[0].is_empty()), "a well-formed lexicon is accepted"); return; }
    check(!bad || skip, "a malformed row is an error or skipped");
    let cd = dict::chardef("DEFAULT 0 1 0\n");
    let ud = dict::unk(&cd, &[]);
    let d = Dictionary { dict: DictionaryLoader::prefix_dict(o.clone()).unwrap(), cost_matrix: dict::matrix(1, 1, &[0]), char_definitions: cd, unknown_dictionary: ud, words_idx_data: Cow::Owned(DictionaryLoader::words_idx_data(o.clone()).unwrap()), words_data: Cow::Owned(DictionaryLoader::words_data(o.clone()).unwrap()) };
    for s in ["a", "あ", "b", "a\0", "ab"] {
        let got = d.dict.find_surface(s);
        let mut want: Vec<_> = used.iter().filter(|r| r[0] == s).map(|r| entry(r).unwrap()).collect();
        check(got.len() == want.len(), "as many entries as accepted rows have the surface");
        for e in got {
            let g = (e.left_id, e.right_id, e.word_cost, d.word_details(e.word_id.0 as usize).unwrap());
            let at = want.iter().position(|w| *w == g);
            check(at.is_some(), "every entry is a row with its numbers and details");
            want.remove(at.unwrap());
            cover("found");
        }
    }
}
const WEIRD: &[&str] = &["a\0", "\0", "", "a", "a b", "あ\0い", " "];
/// surfaces and details that are empty or contain NUL
fn weird() {
    let (i, o) = dirs();
    let skip = flag();
    let mut rows = vec![row(&["b", "7", "8", "9", "x", "y"]), row(&["a", "1", "2", "3", "d", "e"])];
    let f = [0, 4][choose(2)];
    rows[1][f] = WEIRD[choose(WEIRD.len())].into();
    if flag() { rows.remove(0); }
    fs::write(i.join("a.csv"), rows.iter().map(|r| r.join(",") + "\n").collect::<String>()).unwrap();
    let r = DictBuilderOptions::default().skip_invalid_cost_or_id(skip).builder().unwrap().build(&i, &o);
    if r.is_err() && rows.iter().any(|r| r.iter().any(|f| f.contains('\0'))) { cover("NUL rejected"); return; }
    lexicon_of(&rows, r.is_ok(), skip, &o, false);
}
const NUMBERS: &[&str] = &["7", "-1", "32768", "65536", "-32769", "x", ""];
/// user dictionaries: NUL, empty surfaces, empty files, several bad rows
fn user() {
    let (i, _) = dirs();
    let mut rows: Vec<Vec<String>> = vec![];
    for _ in 0..choose(3) {
        let mut r = if flag() { row(&["a", "p", "q"]) } else { row(&["a", "1", "2", "3", "d"]) };
        r[0] = WEIRD[choose(WEIRD.len())].into();
        if r.len() > 3 { let at = choose(4); if at > 0 { r[at] = NUMBERS[choose(NUMBERS.len())].into(); } }
        rows.push(r);
    }
    let p = i.join("u.csv");
    fs::write(&p, rows.iter().map(|r| r.join(",") + "\n").collect::<String>()).unwrap();
    let r = UserDictBuilderOptions::default().builder().ok().unwrap().build(&p);
    let entry = |r: &Vec<String>| -> Option<(u16, u16, i16, Vec<String>)> { if r.len() == 3 { return Some((0, 0, -10000, r[1..].to_vec())); } Some((r[1].parse().ok()?, r[2].parse().ok()?, r[3].parse().ok()?, r[4..].to_vec())) };
    let nul = rows.iter().any(|r| r[0].contains('\0'));
    let empty = rows.iter().any(|r| r[0].is_empty());
    match r {
        Err(_) => { cover("rejected"); check(nul || empty || rows.is_empty() || rows.iter().any(|r| entry(r).is_none()), "a well-formed file is accepted"); }
        Ok(d) => {
            check(rows.iter().all(|r| entry(r).is_some()), "a malformed row is an error");
            for s in WEIRD.iter().chain(&["", "b"]) {
                let got = d.dict.find_surface(s);
                let mut want: Vec<_> = rows.iter().filter(|r| r[0] == *s).map(|r| entry(r).unwrap()).collect();
                check(got.len() == want.len() || s.is_empty(), "as many entries as rows have the surface");
                for e in got {
                    let g = (e.left_id, e.right_id, e.word_cost, d.word_details(e.word_id.0 as usize).unwrap());
                    let at = want.iter().position(|w| *w == g);
                    check(at.is_some(), "every entry is a row with its numbers and details");
                    want.remove(at.unwrap());
                    cover("found");
                }
            }
        }
    }
}
/// each of the five dictionary kinds, one part malformed or missing
fn kinds() {
    let kinds: [(DictionaryKind, usize, usize); 5] = [(DictionaryKind::IPADIC, 13, 11), (DictionaryKind::IPADICNEologd, 13, 11), (DictionaryKind::UniDic, 21, 10), (DictionaryKind::KoDic, 12, 12), (DictionaryKind::CcCedict, 12, 10)];
    let k = choose(5);
    let (kind, fields, unk) = kinds[k].clone();
    let (i, o) = dirs();
    let pad = |s: &[&str], n: usize| { let mut r = row(s); while r.len() < n { r.push("*".into()); } r.join(",") + "\n" };
    let mut files = [("char.def", "DEFAULT 0 1 0\n".to_string()), ("unk.def", pad(&["DEFAULT", "0", "0", "10"], unk)), ("matrix.def", "1 1\n0 0 1\n".to_string()), ("a.csv", pad(&["a", "0", "0", "5"], fields))];
    let bad = choose(5);
    let how = choose(3);
    // cc-cedict leaves rows without numbers out
    let skips = matches!(kinds[k].0, DictionaryKind::CcCedict);
    if bad < 4 {
        files[bad].1 = match how {
            0 => ["KANJI\n", "DEFAULT,1,2\n", "1\n", "a,x,1,1,d\n"][bad].to_string(),
            1 => ["0xZZ KANJI\n", "DEFAULT,x,2,3,*,*,*,*,*,*,*\n", "1 1\n0 1 1\n", "a,1\n"][bad].to_string(),
            _ => "missing".to_string(),
        };
    }
    for (n, c) in &files { if c != "missing" { fs::write(i.join(n), c).unwrap(); } }
    let r = DictionaryBuilderResolver::resolve_builder(kind).unwrap().build_dictionary(&i, &o);
    if bad == 4 { cover("built"); check(r.is_ok(), "well-formed sources build"); return; }
    cover("rejected");
    check(r.is_err() || bad == 3 && skips, "a malformed or missing part makes the build fail");
}
entries! { sx_entry_c19_matrix => matrix; sx_entry_c19_matrix_digits => matrix_digits; sx_entry_c19_unk => unk; sx_entry_c19_unk_digits => unk_digits; sx_entry_c19_unk_built => unk_built; sx_entry_c19_chardef => chardef; sx_entry_c19_chardef_built => chardef_built; sx_entry_c19_codepoint => codepoint; sx_entry_c19_lexicon => lexicon; sx_entry_c19_weird => weird; sx_entry_c19_user => user; sx_entry_c19_kinds => kinds; }

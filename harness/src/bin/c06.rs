//! C06: a built system dictionary gives back its source rows.
use harness::*;
use lindera_core::dictionary::Dictionary;
use lindera_core::mode::Mode;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryConfig, DictionaryKind, DictionaryLoader};
use lindera_dictionary_builder::DictBuilderOptions;
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use std::borrow::Cow;
use std::fs;
use std::path::PathBuf;

fn dirs() -> (PathBuf, PathBuf) {
    let s = scratch();
    let (i, o) = (s.join("in"), s.join("out"));
    fs::create_dir_all(&i).unwrap();
    fs::create_dir_all(&o).unwrap();
    (i, o)
}
/// a row of the source: its fields
type Row = Vec<String>;
fn line(r: &Row) -> String { r.join(",") + "\n" }
/// left id, right id, cost and details of a row, if its numbers are
fn entry(r: &Row, normalized: bool) -> Option<(u16, u16, i16, Vec<String>)> {
    let n = |s: &String| if normalized { norm(s) } else { s.clone() };
    Some((r[1].trim().parse().ok()?, r[2].trim().parse().ok()?, r[3].trim().parse().ok()?, r[4..].iter().map(n).collect()))
}
fn norm(s: &str) -> String { s.chars().map(|c| match c { '\u{2015}' => '\u{2014}', '\u{ff5e}' => '\u{301c}', c => c }).collect() }
fn load(out: &PathBuf) -> Dictionary {
    let cd = dict::chardef("DEFAULT 0 1 0\n");
    let ud = dict::unk(&cd, &[]);
    Dictionary {
        dict: DictionaryLoader::prefix_dict(out.clone()).unwrap(),
        cost_matrix: dict::matrix(1, 1, &[0]),
        char_definitions: cd,
        unknown_dictionary: ud,
        words_idx_data: Cow::Owned(DictionaryLoader::words_idx_data(out.clone()).unwrap()),
        words_data: Cow::Owned(DictionaryLoader::words_data(out.clone()).unwrap()),
    }
}
/// every accepted row under its surface, with its numbers and details, and nothing else
fn verify(d: &Dictionary, rows: &[Row], normalized: bool, absent: &[&str]) {
    let surface = |r: &Row| if normalized { norm(&r[0]) } else { r[0].clone() };
    let mut asked: Vec<String> = rows.iter().map(|r| r[0].clone()).chain(rows.iter().map(surface)).chain(absent.iter().map(|s| s.to_string())).collect();
    asked.sort();
    asked.dedup();
    for s in &asked {
        let mut want: Vec<(u16, u16, i16, Vec<String>)> = rows.iter().filter(|r| surface(r) == *s).filter_map(|r| entry(r, normalized)).collect();
        let got = d.dict.find_surface(s);
        check(got.len() == want.len(), "as many entries as accepted rows have the surface");
        if got.len() > 1 { cover("homographs") }
        if want.is_empty() { cover("absent") }
        for e in &got {
            let details = d.word_details(e.word_id.0 as usize);
            check(details.is_some(), "every entry has details");
            let g = (e.left_id, e.right_id, e.word_cost, details.unwrap());
            let at = want.iter().position(|w| *w == g);
            check(at.is_some(), "every entry is a row with its ids, cost and details");
            want.remove(at.unwrap());
            check(e.word_id.is_system(), "system words");
            cover("found");
            out(e.word_id.0 as u64);
            for x in &g.3 { out_str(x); }
        }
        // the lookup the tokenizer uses
        let text = format!("{}zz", s);
        let n = d.dict.prefix(&text).filter(|(l, _)| *l == s.len()).count();
        check(s.is_empty() || n == got.len(), "found as a prefix as well");
    }
}
fn build(rows: &[Row], o: &mut DictBuilderOptions, skip: bool, normalized: bool, absent: &[&str]) {
    let (i, out) = dirs();
    fs::write(i.join("a.csv"), rows.iter().map(line).collect::<String>()).unwrap();
    finish(&i, &out, rows, o, skip, normalized, absent)
}
fn finish(i: &PathBuf, out: &PathBuf, rows: &[Row], o: &mut DictBuilderOptions, skip: bool, normalized: bool, absent: &[&str]) {
    let r = o.skip_invalid_cost_or_id(skip).normalize_details(normalized).builder().unwrap().build(i, out);
    let bad = rows.iter().any(|r| entry(r, normalized).is_none());
    if bad && !skip { cover("rejected"); check(r.is_err(), "numbers that do not parse make the build fail"); return; }
    if bad { cover("skipped") }
    check(r.is_ok(), "the dictionary builds");
    verify(&load(out), rows, normalized, absent);
}
fn row(s: &[&str]) -> Row { s.iter().map(|s| s.to_string()).collect() }
const ROWS: &[&[&str]] = &[
    &["ab", "1", "2", "-3", "名詞", "一般", "*"], &["a", "65535", "0", "32767", "d"], &["ab", "4", "5", "-32768", "動詞", "", "ア"], &["あい", " 6", "7 ", " -8", "", "e"],
    &["a", "0", "0", "0", "名詞"], &["あ", "9", "9", "9", "f", "g", "h", "i", "j", "k", "l", "m", "n"], &["abc", "3", "3", "-10000", "a b", "c;d"],
];
/// three rows in any order, homographs and duplicates
fn rows() {
    let rows: Vec<Row> = (0..3).map(|_| row(ROWS[choose(ROWS.len())])).collect();
    build(&rows, &mut DictBuilderOptions::default(), false, false, &["b", "abcd", "い"]);
}
/// more rows
fn many() {
    let n = choose(4) * 3 + 4;
    let k = choose(ROWS.len());
    let rows: Vec<Row> = (0..n).map(|i| { let mut r = row(ROWS[(i * 3 + k) % ROWS.len()]); r[1] = format!("{}", i); r.push(format!("x{}", i)); if i % 4 == 3 { r[0] = format!("w{}", 20 - i); } r }).collect();
    build(&rows, &mut DictBuilderOptions::default(), false, false, &["b"]);
}
fn crowd(n: usize) {
    let at = choose(3);
    let mut rows: Vec<Row> = (0..n).map(|i| row(&["あ", &format!("{}", i), "0", &format!("-{}", i * 7), "d", &format!("x{}", i)])).collect();
    for s in [&["b", "1", "1", "1", "p"], &["い", "2", "2", "2", "q"]] { rows.insert([0, n / 2, n][at], row(s)); }
    build(&rows, &mut DictBuilderOptions::default(), false, false, &["c"]);
}
/// up to 31 rows of one surface
fn homographs() { crowd([1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31][choose(11)]); }
/// 32 rows of one surface and more: see known_findings.json
fn crowded() { crowd([32, 33, 40][choose(3)]); }
/// rows in several files
fn files() {
    let (i, o) = dirs();
    let rows: Vec<Row> = (0..3).map(|_| row(ROWS[choose(4)])).collect();
    let mut files = vec![String::new(); 3];
    for r in &rows { files[choose(3)] += &line(r); }
    for (n, f) in files.iter().enumerate() { if !f.is_empty() || flag() { fs::write(i.join(["b.csv", "a.csv", "c.d.csv"][n]), f).unwrap(); } }
    fs::write(i.join("x.txt"), "q,1,1,1,d\n").unwrap();
    finish(&i, &o, &rows, &mut DictBuilderOptions::default(), false, false, &["q", "b"]);
}
const NUMBERS: &[&str] = &["7", "-1", "32768", "65535", "65536", "-32769", "x", "", "1.5", "0x1", " 7"];
/// numbers that do not parse, skipped or not
fn invalid() {
    let skip = flag();
    let mut rows = vec![row(ROWS[0]), row(ROWS[1]), row(ROWS[4])];
    let (k, f) = (choose(3), choose(3) + 1);
    rows[k][f] = NUMBERS[choose(NUMBERS.len())].to_string();
    if flag() { let (k, f) = ((k + 1) % 3, choose(3) + 1); rows[k][f] = "-".to_string(); }
    build(&rows, &mut DictBuilderOptions::default(), skip, false, &["b"]);
}
/// every cost and id
fn digits() {
    let num = |n: usize, neg: bool| { let mut s = String::new(); if neg { s.push('-'); } s.push_str(["0", "2", "3", "6", "9"][choose(5)]); for _ in 1..n { s.push((b'0' + pick(10) as u8) as char); } s };
    let k = choose(3);
    let mut r = row(ROWS[k]);
    match choose(4) { 0 => r[1] = num(5, false), 1 => r[2] = num(5, false), 2 => r[3] = num(5, false), _ => r[3] = num(5, true) }
    let skip = flag();
    build(&[row(ROWS[5]), r, row(ROWS[6])], &mut DictBuilderOptions::default(), skip, false, &["b"]);
}
/// the two characters that normalization replaces, and those it puts in their place
fn normalized() {
    let chars = ["\u{2015}", "\u{2014}", "\u{ff5e}", "\u{301c}", "a", "~", "-"];
    let (s, d) = (text(&chars, 2), text(&chars, 1));
    let t = chars[choose(2) * 2];
    let on = flag();
    let rows = [row(&[&s, "1", "1", "1", &d, "e"]), row(&[t, "2", "2", "2", "f", &d, "\u{2015}\u{ff5e}"]), row(&["a\u{2014}", "3", "3", "3", "g"])];
    build(&rows, &mut DictBuilderOptions::default(), false, on, &["b", "\u{2014}\u{2014}", "\u{2015}\u{2015}"]);
}
/// any character of one or two bytes, and those near the normalized ones, in a detail
fn anychar() {
    let mut c = String::from("x");
    let k = choose(5);
    if k < 2 { any_char_n(&mut c, k + 1); } else {
        let v = unsafe { c.as_mut_vec() };
        v.extend([[0xe2, 0x80], [0xef, 0xbd], [0xe3, 0x80]][k - 2]);
        let b = var_u8();
        assume(b >= 0x80 && b <= 0xbf);
        v.push(b);
    }
    for x in ["x\0", "x,", "x\"", "x\n", "x\r"] { assume(c != x); }
    let on = flag();
    let rows = [row(&["あ", "1", "1", "1", "x"]), row(&["a", "2", "3", "4", &c, "y"]), row(&["い", "1", "1", "1", "z"])];
    let (i, out) = dirs();
    fs::write(i.join("a.csv"), rows.iter().map(line).collect::<String>()).unwrap();
    DictBuilderOptions::default().normalize_details(on).builder().unwrap().build(&i, &out).unwrap();
    let d = load(&out);
    let n = |s: &String| if on { norm(s) } else { s.clone() };
    let e = d.dict.find_surface("a");
    check(e.len() == 1 && e[0].left_id == 2 && e[0].right_id == 3 && e[0].word_cost == 4, "found under its surface");
    check(d.word_details(e[0].word_id.0 as usize).unwrap() == [n(&c), "y".to_string()], "its details");
    check(d.word_details(d.dict.find_surface("い")[0].word_id.0 as usize).unwrap() == ["z"], "the details of the next row");
    cover("found");
}
/// quoted fields
fn quoted() {
    let pieces = ["\"", ",", "a", "\n", "あ"];
    let (s, d) = (text(&pieces, 2), text_upto(&pieces, 2));
    let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let (i, out) = dirs();
    fs::write(i.join("a.csv"), format!("b,1,1,1,x\n{},2,3,4,{},y{}", q(&s), q(&d), ["\n", "", "\r\n", "\n\n"][choose(4)])).unwrap();
    let rows = [row(&["b", "1", "1", "1", "x"]), row(&[&s, "2", "3", "4", &d, "y"])];
    finish(&i, &out, &rows, &mut DictBuilderOptions::default(), false, false, &["a"]);
}
const KINDS: &[(DictionaryKind, usize, usize)] = &[(DictionaryKind::IPADIC, 13, 11), (DictionaryKind::IPADICNEologd, 13, 11), (DictionaryKind::UniDic, 21, 10), (DictionaryKind::KoDic, 12, 12), (DictionaryKind::CcCedict, 12, 10)];
/// a whole dictionary of every kind, loaded and used by path
fn kinds() {
    let k = choose(5);
    let (kind, fields, unk) = KINDS[k].clone();
    let (i, o) = dirs();
    // IPADIC is EUC-JP: the rows keep to ASCII and あ (A4 A2)
    let enc = |s: &str| -> Vec<u8> { if k != 0 { return s.as_bytes().to_vec(); } let mut v = vec![]; for c in s.chars() { match c { 'あ' => v.extend([0xa4, 0xa2]), c => v.push(c as u8) } } v };
    let pad = |s: &[&str]| { let mut r = row(s); while r.len() < fields { r.push(format!("f{}", r.len())); } r };
    let surfaces = ["a", "ab", "あ", "あb"];
    let mut rows = vec![];
    for (n, s) in surfaces.iter().enumerate() { if flag() { rows.push(pad(&[s, "0", "0", ["5", "-20", "7", "-300"][n], ["x", "名", "y", "z"][n]])); } }
    rows.push(pad(&["b", "0", "0", "1", "w"]));
    if k == 0 { for r in &mut rows { r[4] = "n".into(); } }
    fs::write(i.join("lex.csv"), enc(&rows.iter().map(line).collect::<String>())).unwrap();
    fs::write(i.join("char.def"), enc("# c\nDEFAULT 0 1 0 # x\nKANA 1 0 0\n0x3042 KANA\n")).unwrap();
    let u = |c: &str| { let mut r = row(&[c, "0", "0", "1000"]); while r.len() < unk { r.push("*".into()); } line(&r) };
    fs::write(i.join("unk.def"), enc(&(u("DEFAULT") + &u("KANA")))).unwrap();
    fs::write(i.join("matrix.def"), "1 1\n0 0 -4\n").unwrap();
    let b = DictionaryBuilderResolver::resolve_builder(kind).unwrap();
    let r = b.build_dictionary(&i, &o);
    check(r.is_ok(), "the dictionary builds");
    let d = DictionaryLoader::load_dictionary(o.clone()).unwrap();
    verify(&d, &rows, false, &["c", "bb"]);
    check(d.cost_matrix.cost(0, 0) == -4, "the matrix");
    check(d.char_definitions.category_name(d.char_definitions.lookup_categories('あ')[0]) == "KANA", "the character definitions");
    // the tokenizer by path
    let t = Tokenizer::from_config(TokenizerConfig { dictionary: DictionaryConfig { kind: None, path: Some(o) }, user_dictionary: None, mode: Mode::Normal }).unwrap();
    for r in &rows {
        let text = r[0].clone();
        let mut ts = t.tokenize(&text).unwrap();
        check(ts.iter().map(|t| t.text.to_string()).collect::<String>() == text, "the tokens are the text");
        if ts.len() == 1 {
            cover("one token");
            let d: Vec<String> = ts[0].get_details().unwrap().iter().map(|s| s.to_string()).collect();
            check(d == r[4..], "the details of a token are the row's");
        }
        out(ts.len() as u64);
    }
}
/// much data: long fields, many rows
fn large() {
    let mut rows: Vec<Row> = vec![];
    let n = [70000, 9000, 300][choose(3)];
    if flag() {
        let r = |s: &str, l: usize, c: i16| -> Row { vec![s.into(), "1".into(), "2".into(), c.to_string(), "x".repeat(l), "y".into()] };
        rows.extend([r("b", n, 1), r("a", 3, 2), r("ab", n, 3), r("c", 0, 4)]);
    } else {
        for i in 0..n / 20 { rows.push(vec![format!("w{}", i * 7 % (n / 20)), i.to_string(), (65535 - i).to_string(), (i as i64 * 37 % 65536 - 32768).to_string(), format!("d{}", i), "z".repeat(i % 40)]); }
    }
    build(&rows, &mut DictBuilderOptions::default(), false, false, &["zz", "w"]);
}
entries! { sx_entry_c06_rows => rows; sx_entry_c06_many => many; sx_entry_c06_files => files; sx_entry_c06_homographs => homographs; sx_entry_c06_crowded => crowded; sx_entry_c06_invalid => invalid; sx_entry_c06_digits => digits; sx_entry_c06_normalized => normalized; sx_entry_c06_anychar => anychar; sx_entry_c06_quoted => quoted; sx_entry_c06_kinds => kinds; sx_entry_c06_large => large; }

//! C07: user dictionary rows are faithfully represented and take part in tokenization.
use harness::*;
use lindera_core::dictionary::UserDictionary;
use lindera_core::mode::Mode;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_dictionary_builder::{build_user_dictionary, UserDictBuilderOptions};
use lindera_tokenizer::tokenizer::Tokenizer;
use std::fs;
use std::path::PathBuf;

type Row = Vec<String>;
type Entry = (u16, u16, i16, Vec<String>);
fn row(s: &[&str]) -> Row { s.iter().map(|s| s.to_string()).collect() }
// kind, fields of a detailed row, whether rows may differ in length
const KINDS: &[(DictionaryKind, usize, bool)] = &[(DictionaryKind::IPADIC, 13, true), (DictionaryKind::IPADICNEologd, 13, true), (DictionaryKind::UniDic, 21, false), (DictionaryKind::KoDic, 12, false), (DictionaryKind::CcCedict, 12, false)];
/// the details of a simple row: surface, part of speech, reading
fn simple(k: usize, r: &Row) -> Vec<String> {
    let at: (usize, Option<usize>, usize, usize) = match k { 0 | 1 => (0, Some(6), 7, 9), 2 => (0, None, 6, 17), 3 => (0, None, 3, 8), _ => (0, None, 4, 8) };
    let mut d = vec!["*".to_string(); at.3];
    d[at.0] = r[1].clone();
    if let Some(i) = at.1 { d[i] = r[0].clone(); }
    d[at.2] = r[2].clone();
    d
}
fn entry(k: usize, r: &Row) -> Option<Entry> {
    if r.len() == 3 { return Some((0, 0, -10000, simple(k, r))); }
    if r.len() < KINDS[k].1 { return None; }
    Some((r[1].parse().ok()?, r[2].parse().ok()?, r[3].parse().ok()?, r[4..].to_vec()))
}
fn path() -> PathBuf { let d = scratch(); d.join("user.csv") }
fn write(rows: &[Row]) -> PathBuf { let p = path(); fs::write(&p, rows.iter().map(|r| r.join(",") + "\n").collect::<String>()).unwrap(); p }
/// every row under its surface and nothing else
fn represents(d: &UserDictionary, rows: &[(String, Entry)], absent: &[&str]) {
    let mut asked: Vec<&str> = rows.iter().map(|r| r.0.as_str()).chain(absent.iter().copied()).collect();
    asked.sort();
    asked.dedup();
    for s in asked {
        let mut want: Vec<&Entry> = rows.iter().filter(|r| r.0 == s).map(|r| &r.1).collect();
        let got = d.dict.find_surface(s);
        check(got.len() == want.len(), "as many entries as rows have the surface");
        if got.len() > 1 { cover("homographs") }
        for e in &got {
            let details = d.word_details(e.word_id.0 as usize);
            check(details.is_some(), "every entry has details");
            let g = (e.left_id, e.right_id, e.word_cost, details.unwrap());
            let at = want.iter().position(|w| **w == g);
            check(at.is_some(), "every entry is a row with its ids, cost and details");
            want.remove(at.unwrap());
            check(!e.word_id.is_system(), "user words");
            cover("found");
            for x in &g.3 { out_str(x); }
        }
        let text = format!("{}zz", s);
        check(s.is_empty() || d.dict.prefix(&text).filter(|(l, _)| *l == s.len()).count() == got.len(), "found as a prefix as well");
    }
}
fn verify(k: usize, rows: &[Row], absent: &[&str]) -> Option<UserDictionary> {
    let p = write(rows);
    let b = DictionaryBuilderResolver::resolve_builder(KINDS[k].0.clone()).unwrap();
    let r = b.build_user_dict(&p);
    let want: Vec<Option<Entry>> = rows.iter().map(|r| entry(k, r)).collect();
    let uneven = rows.iter().any(|r| r.len() != rows[0].len());
    if want.iter().any(|w| w.is_none()) { cover("rejected"); check(r.is_err(), "a row of another shape or without numbers makes the build fail"); return None; }
    if uneven && !KINDS[k].2 && r.is_err() { cover("uneven"); return None; }
    check(r.is_ok(), "the user dictionary builds");
    let d = r.ok().unwrap();
    let rows: Vec<(String, Entry)> = rows.iter().zip(want).map(|(r, w)| (r[0].clone(), w.unwrap())).collect();
    represents(&d, &rows, absent);
    Some(d)
}
fn detailed(k: usize, s: &str, l: &str, r: &str, c: &str) -> Row {
    let mut v = row(&[s, l, r, c]);
    while v.len() < KINDS[k].1 { v.push(format!("f{}", v.len())); }
    v
}
const S: &[&[&str]] = &[&["東京", "名詞", "トウキョウ"], &["a", "p", "q"], &["東京", "x", ""], &["東", "", "*"], &["", "p", "q"]];
fn template(k: usize, t: usize) -> Row {
    match t {
        0..=3 => row(S[t]),
        4 => detailed(k, "東京", "7", "65535", "-32768"),
        5 => { let mut r = detailed(k, "ab", "0", "1", "32767"); r[5] = String::new(); r[4] = "a b".into(); r }
        _ => { let mut r = detailed(k, "a", "3", "4", "5"); if KINDS[k].2 { r.push("extra".into()); } r }
    }
}
/// every list of rows of both formats, every kind
fn rows() {
    let k = choose(5);
    let n = choose(3) + 1;
    let rows: Vec<Row> = (0..n).map(|_| template(k, choose(7))).collect();
    verify(k, &rows, &["b", "東京都"]);
}
fn crowd(k: usize, n: usize) {
    let mut rows: Vec<Row> = (0..n).map(|i| detailed(k, "あ", &format!("{}", i), "0", &format!("-{}", i * 7))).collect();
    for s in ["b", "い"] { rows.insert([0, n / 2, n][choose(3)], detailed(k, s, "1", "1", "1")); }
    verify(k, &rows, &["c"]);
}
/// up to 31 rows of one surface
fn homographs() { crowd(choose(5), [1, 2, 3, 7, 8, 9, 15, 16, 17, 30, 31][choose(11)]); }
/// 32 rows of one surface and more: see known_findings.json
fn crowded() { crowd(choose(5), [32, 33, 40][choose(3)]); }
/// every number of fields
fn shapes() {
    let k = choose(5);
    let n = choose(24) + 1;
    let mut r = row(&["あ", "1", "2", "3"]);
    while r.len() < n { r.push(format!("f{}", r.len())); }
    r.truncate(n);
    let rows = if flag() { vec![row(S[1]), r] } else { vec![r] };
    verify(k, &rows, &["い"]);
}
const NUMBERS: &[&str] = &["7", "-1", "32768", "65535", "65536", "-32769", "x", "", "1.5", " 7", "7 "];
/// numbers that do not parse
fn numbers() {
    let k = choose(5);
    let mut rows = vec![detailed(k, "a", "1", "2", "3"), detailed(k, "あ", "4", "5", "6")];
    rows[choose(2)][choose(3) + 1] = NUMBERS[choose(NUMBERS.len())].to_string();
    verify(k, &rows, &["b"]);
}
/// every cost and id
fn digits() {
    let mut r = detailed(0, "あ", "1", "2", "3");
    let f = choose(4);
    let mut s = String::from(["", "", "", "-"][f]);
    s.push_str(["0", "3", "6", "9"][choose(4)]);
    for _ in 0..4 { s.push((b'0' + pick(10) as u8) as char); }
    r[f.min(2) + 1] = s;
    verify(0, &[row(S[0]), r], &["b"]);
}
/// the builder's own settings
fn options() {
    let (n, m) = (choose(4) + 1, 4 + choose(3));
    let flexible = flag();
    let fields = choose(8) + 1;
    let mut r = row(&["あ", "1", "2", "3"]);
    while r.len() < fields { r.push(format!("f{}", r.len())); }
    r.truncate(fields);
    let p = write(&[r.clone()]);
    let d = UserDictBuilderOptions::default().simple_userdic_fields_num(n).detailed_userdic_fields_num(m).simple_word_cost(-77).simple_context_id(5).flexible_csv(flexible).builder().ok().unwrap().build(&p);
    let want = if fields == n { Some((5, 5, -77, r[1..].to_vec())) } else if fields >= m { Some((1, 2, 3, r[4..].to_vec())) } else { None };
    match want {
        Some(w) => { check(d.is_ok(), "the user dictionary builds"); represents(&d.ok().unwrap(), &[(r[0].clone(), w)], &["い"]); }
        None => { cover("rejected"); check(d.is_err(), "a row of another shape makes the build fail"); }
    }
}
/// quoted fields and characters of any kind
fn quoted() {
    let k = choose(5);
    let pieces = ["\"", ",", "a", "\n", "𠮷", " "];
    let (s, d) = (text(&pieces, 2), text_upto(&pieces, 2));
    let q = |s: &str| format!("\"{}\"", s.replace('"', "\"\""));
    let p = path();
    fs::write(&p, format!("{},{},y", q(&s), q(&d))).unwrap();
    let r = row(&[&s, &d, "y"]);
    let u = DictionaryBuilderResolver::resolve_builder(KINDS[k].0.clone()).unwrap().build_user_dict(&p).unwrap();
    represents(&u, &[(s, entry(k, &r).unwrap())], &["a"]);
}
/// written to a file and read back
fn saved() {
    let k = choose(5);
    let n = choose(2) + 1;
    let rows: Vec<Row> = (0..n).map(|_| template(k, choose(7))).collect();
    if let Some(d) = verify(k, &rows, &["b"]) {
        let out = scratch().join("sub").join("user.bin");
        let b = DictionaryBuilderResolver::resolve_builder(KINDS[k].0.clone()).unwrap();
        if flag() { b.build_user_dictionary(&path(), &out).unwrap(); } else { build_user_dictionary(d, &out).unwrap(); }
        let want: Vec<(String, Entry)> = rows.iter().map(|r| (r[0].clone(), entry(k, r).unwrap())).collect();
        cover("saved");
        represents(&DictionaryLoader::load_user_dictionary_from_bin(out.clone()).unwrap(), &want, &["b", "東京都"]);
        let kind = [None, Some(KINDS[k].0.clone())][choose(2)].clone();
        represents(&DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: out, kind }).unwrap(), &want, &[]);
        represents(&DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: path(), kind: Some(KINDS[k].0.clone()) }).unwrap(), &want, &[]);
        check(DictionaryLoader::load_user_dictionary_from_config(UserDictionaryConfig { path: path(), kind: None }).is_err(), "a CSV file needs a kind");
    }
}
/// the rows are words of the tokenizer
fn tokenized() {
    let k = choose(5);
    let rows: Vec<Row> = [1usize, 4, 5].iter().filter(|_| flag()).map(|t| { let mut r = template(k, *t); if r.len() > 3 { r[1] = "0".into(); r[2] = "0".into(); r[3] = format!("{}", *t as i32 * -100); } r }).collect();
    if rows.is_empty() { return; }
    let Some(d) = verify(k, &rows, &[]) else { return };
    let cd = dict::chardef("DEFAULT 0 1 0\n");
    let u = dict::unk(&cd, &[dict::U { category: "DEFAULT", cost: 20000, left: 0, right: 0 }]);
    let sys = dict::dictionary(&[dict::w("b", 10, 0, 0), dict::w("東", 10, 0, 0)], dict::matrix(1, 1, &[0]), cd, u);
    let t = Tokenizer::new(sys, Some(d), Mode::Normal);
    let text = text(&["東京", "a", "ab", "東", "x"], 2);
    let mut at = 0;
    for tok in t.tokenize(&text).unwrap().iter_mut() {
        check(&*tok.text == &text[at..at + tok.text.len()], "the tokens are the text");
        at += tok.text.len();
        let details: Vec<String> = tok.get_details().unwrap().iter().map(|s| s.to_string()).collect();
        if let Some(r) = rows.iter().find(|r| r[0] == tok.text) {
            if !tok.word_id.is_system() { cover("user token"); check(details == entry(k, r).unwrap().3, "a user word has its row's details"); }
        }
        out(tok.text.len() as u64);
        out(tok.word_id.0 as u64);
    }
    // a text that is a user word is that word: everything else costs more
    for r in &rows {
        let ts = t.tokenize(&r[0]).unwrap();
        check(ts.len() == 1 && ts[0].text == r[0] && !ts[0].word_id.is_system() || ts.len() > 1 && rows.iter().any(|q| q[0] == ts[0].text && q[0] != r[0]), "a cheap user word is used");
    }
}
/// much data: long fields, many rows
fn large() {
    let k = choose(5);
    let n = [70000, 9000, 300][choose(3)];
    let mut rows: Vec<Row> = vec![];
    if flag() {
        for (i, s) in ["b", "a", "ab"].iter().enumerate() { rows.push(row(&[s, &"x".repeat(if i == 1 { 3 } else { n }), &"ヨ".repeat(i * 100)])); }
    } else {
        for i in 0..n / 40 { let s = format!("w{}", i * 7 % (n / 40)); rows.push(detailed(k, &s, &i.to_string(), &(65535 - i).to_string(), &(i as i64 * 37 % 65536 - 32768).to_string())); }
    }
    verify(k, &rows, &["zz", "w"]);
}
entries! { sx_entry_c07_rows => rows; sx_entry_c07_homographs => homographs; sx_entry_c07_crowded => crowded; sx_entry_c07_shapes => shapes; sx_entry_c07_numbers => numbers; sx_entry_c07_digits => digits; sx_entry_c07_options => options; sx_entry_c07_quoted => quoted; sx_entry_c07_saved => saved; sx_entry_c07_tokenized => tokenized; sx_entry_c07_large => large; }

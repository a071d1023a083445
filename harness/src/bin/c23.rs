//! C23: a configuration loads the dictionary it names.
use harness::*;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryConfig, DictionaryKind, DictionaryLoader, UserDictionaryConfig};
use lindera_tokenizer::tokenizer::{Tokenizer, TokenizerConfig};
use std::fs;
use std::path::{Path, PathBuf};

const KINDS: [DictionaryKind; 5] = [DictionaryKind::IPADIC, DictionaryKind::IPADICNEologd, DictionaryKind::UniDic, DictionaryKind::KoDic, DictionaryKind::CcCedict];
const FILES: [&str; 7] = ["dict.da", "dict.vals", "matrix.mtx", "char_def.bin", "unk.bin", "dict.words", "dict.wordsidx"];
/// a dictionary directory: words "a" and "ab", the second's cost and the details telling which one it is
fn directory(name: &str, tag: &str, cost: i32) -> PathBuf {
    let s = scratch();
    let (i, o) = (s.join(format!("{}.src", name)), s.join(name));
    fs::create_dir_all(&i).unwrap();
    let row = |w: &str, c: i32| { let mut v = vec![w.to_string(), "0".into(), "0".into(), c.to_string()]; while v.len() < 21 { v.push(format!("{}{}", tag, v.len())); } v.join(",") + "\n" };
    fs::write(i.join("lex.csv"), row("a", 10) + &row("ab", cost) + &row("b", 20)).unwrap();
    fs::write(i.join("char.def"), "DEFAULT 0 1 0\nKANA 1 0 0\n0x3042 KANA\n").unwrap();
    fs::write(i.join("unk.def"), "DEFAULT,0,0,1000,*,*,*,*,*,*\nKANA,0,0,900,*,*,*,*,*,*\n").unwrap();
    fs::write(i.join("matrix.def"), "1 1\n0 0 3\n").unwrap();
    let r = DictionaryBuilderResolver::resolve_builder(DictionaryKind::UniDic).unwrap().build_dictionary(&i, &o);
    check(r.is_ok(), "the dictionary builds");
    o
}
/// what a tokenizer makes of a text
fn tokens(t: &Tokenizer, text: &str) -> Vec<(String, usize, u32, bool, Vec<String>)> {
    t.tokenize(text).unwrap().iter_mut().map(|t| (t.text.to_string(), t.byte_start, t.word_id.0, t.word_id.1, t.get_details().unwrap().iter().map(|s| s.to_string()).collect())).collect()
}
fn same(a: &Tokenizer, b: &Tokenizer) {
    let x = text(&["a", "ab", "b", "あ", "。", "x"], 3);
    let (p, q) = (tokens(a, &x), tokens(b, &x));
    check(p == q, "the same tokens");
    out(p.len() as u64);
}
/// the embedded dictionaries: exactly the kinds that are listed load, each with its own words
fn kinds() {
    let k = choose(5);
    let contained = DictionaryKind::contained_variants();
    check(contained.iter().filter(|c| **c == KINDS[k]).count() <= 1, "no kind is listed twice");
    let listed = contained.contains(&KINDS[k]);
    let path = flag();
    let r = DictionaryLoader::load_dictionary_from_config(DictionaryConfig { kind: Some(KINDS[k].clone()), path: None });
    let t = Tokenizer::from_config(TokenizerConfig { dictionary: DictionaryConfig { kind: Some(KINDS[k].clone()), path: None }, user_dictionary: None, mode: Mode::Normal });
    check(r.is_ok() == listed && t.is_ok() == listed, "exactly the contained kinds load");
    let missing = DictionaryLoader::load_dictionary_from_config(DictionaryConfig { kind: None, path: if path { Some(scratch().join("nowhere")) } else { None } });
    check(missing.is_err(), "no dictionary and a missing directory are errors");
    if !listed { cover("not contained"); return; }
    cover("contained");
    // the words of the stand-in dictionaries this build embeds
    let d = r.ok().unwrap();
    let t = t.ok().unwrap();
    let e = DictionaryLoader::load_dictionary_from_kind(KINDS[k].clone()).ok().unwrap();
    for (i, w) in ["テスト", "テスト", "テスト", "테스트", "测试"].iter().enumerate() {
        let x = |d: &Dictionary| d.dict.find_surface(w).iter().map(|e| (e.word_id.0, e.word_cost, e.left_id, e.right_id)).collect::<Vec<_>>();
        check(x(&d) == x(&e) && x(&d) == x(&t.dictionary), "one dictionary whichever way it is loaded");
        if i == k {
            check(x(&d).len() == 1, "it has its own word");
            let want: &[(i16, u16, u16)] = match k { 0 => &[(-1000, 1288, 1288)], 2 => &[(767, 5131, 5131)], 3 => &[(4721, 1785, 3543)], 4 => &[(-1131, 0, 0)], _ => &[] };
            for w in want { check(x(&d)[0] == (x(&d)[0].0, w.0, w.1, w.2), "with its numbers"); }
        }
    }
}
/// dictionaries by path
fn path() {
    let p = directory("one", "p", -50);
    let q = directory("two", "q", 5000);
    let (pick, other) = if flag() { (p, q) } else { (q, p) };
    let mode = [Mode::Normal, Mode::Decompose(Penalty::default())][choose(2)].clone();
    let config = TokenizerConfig { dictionary: DictionaryConfig { kind: None, path: Some(pick.clone()) }, user_dictionary: None, mode: mode.clone() };
    let t = Tokenizer::from_config(config).ok().unwrap();
    check(t.mode == mode, "the mode");
    check(t.user_dictionary.is_none(), "no user dictionary");
    let u = Tokenizer::new(DictionaryLoader::load_dictionary(pick.clone()).unwrap(), None, mode.clone());
    let o = Tokenizer::new(DictionaryLoader::load_dictionary(other).unwrap(), None, mode);
    same(&t, &u);
    check(tokens(&t, "a")[0].4 != tokens(&o, "a")[0].4, "and not those of another dictionary");
    let cheap = pick.ends_with("one");
    check(tokens(&t, "ab").len() == if cheap { 1 } else { 2 }, "the words of this directory");
    check(tokens(&t, "a")[0].4[0] == if cheap { "p4" } else { "q4" }, "the details of this directory");
    cover(if cheap { "one" } else { "two" });
}
fn missing_file(p: &Path) -> usize { let k = choose(FILES.len() + 1); if k < FILES.len() { fs::remove_file(p.join(FILES[k])).unwrap(); } k }
/// a directory without one of its files
fn missing() {
    let p = directory("one", "p", -50);
    let k = missing_file(&p);
    let c = DictionaryConfig { kind: None, path: Some(p.clone()) };
    let r = DictionaryLoader::load_dictionary_from_config(c.clone());
    let t = Tokenizer::from_config(TokenizerConfig { dictionary: c, user_dictionary: None, mode: Mode::Normal });
    check(r.is_ok() == (k == FILES.len()) && t.is_ok() == r.is_ok(), "every file is needed");
    cover(if r.is_ok() { "loaded" } else { "rejected" });
    for (i, ok) in [DictionaryLoader::prefix_dict(p.clone()).is_ok(), DictionaryLoader::connection(p.clone()).is_ok(), DictionaryLoader::char_def(p.clone()).is_ok(), DictionaryLoader::unknown_dict(p.clone()).is_ok(), DictionaryLoader::words_data(p.clone()).is_ok(), DictionaryLoader::words_idx_data(p.clone()).is_ok()].iter().enumerate() {
        check(*ok == !(i == 0 && k < 2 || i > 0 && k == i + 1), "each part needs its own files");
    }
}
fn words(u: &UserDictionary) -> Vec<(u32, i16, u16, u16, Option<Vec<String>>)> {
    ["foo", "bar", "ab"].iter().flat_map(|s| u.dict.find_surface(s)).map(|e| (e.word_id.0, e.word_cost, e.left_id, e.right_id, u.word_details(e.word_id.0 as usize))).collect()
}
/// user dictionaries: CSV files of a kind, stored ones of any or no kind, anything else an error
fn user() {
    let s = scratch();
    let k = choose(6);
    let kind = if k == 5 { None } else { Some(KINDS[k].clone()) };
    let exists = flag();
    let x = choose(10);
    let name = ["u.csv", "u.bin", "u.CSV", "u.txt", "u", ".csv", "u.csv.bin", "u.bin.csv", "u.dic", "u.BIN"][x];
    let csv = "foo,NN,フー\nbar,VV,バー\n";
    let of = |k: usize| { let p = s.join(format!("source{}.csv", k)); fs::write(&p, csv).unwrap(); DictionaryBuilderResolver::resolve_builder(KINDS[k].clone()).unwrap().build_user_dict(&p).ok().unwrap() };
    let stored = choose(2) * 3 + 1;
    let file = s.join(name);
    // the content goes with the extension; the others hold a well-formed CSV or a stored dictionary
    let bin = x == 1 || x == 6;
    if exists { if bin || x > 7 || x > 1 && x < 6 && flag() { fs::write(&file, bincode::serialize(&of(stored)).unwrap()).unwrap() } else { fs::write(&file, csv).unwrap() } }
    let c = UserDictionaryConfig { path: file, kind };
    let r = DictionaryLoader::load_user_dictionary_from_config(c.clone());
    let ok = exists && (bin || (x == 0 || x == 7) && k < 5);
    check(r.is_ok() == ok, "CSV files with a kind and stored files load, nothing else");
    let p = directory("one", "p", -50);
    let mode = [Mode::Normal, Mode::Decompose(Penalty::default())][choose(2)].clone();
    let t = Tokenizer::from_config(TokenizerConfig { dictionary: DictionaryConfig { kind: None, path: Some(p.clone()) }, user_dictionary: Some(c), mode: mode.clone() });
    check(t.is_ok() == ok, "and so does a tokenizer");
    if !ok { cover("rejected"); return; }
    cover(if bin { "stored" } else { "CSV" });
    let (u, t) = (r.ok().unwrap(), t.ok().unwrap());
    let w = of(if bin { stored } else { k });
    check(words(&u) == words(&w) && words(&u).len() == 2, "the words and numbers of the builder of the kind");
    check(words(t.user_dictionary.as_ref().unwrap()) == words(&w), "in the tokenizer as well");
    let n = Tokenizer::new(DictionaryLoader::load_dictionary(p).unwrap(), Some(w), mode);
    let x = text(&["foo", "ab", "bar", "o"], 1) + "ab" + name;
    check(tokens(&t, &x) == tokens(&n, &x), "the same tokens");
    check(tokens(&t, "foo").len() == 1 && !tokens(&t, "foo")[0].3, "user words are used");
}
/// the configuration as JSON
fn json() {
    let p = directory("one", "p", -50);
    let s = scratch();
    fs::write(s.join("u.csv"), "foo,NN,フー\n").unwrap();
    let k = choose(5);
    let user = flag();
    let decompose = flag();
    let mut j = format!("{{\"dictionary\":{{\"path\":{}}}", serde_json::to_string(p.to_str().unwrap()).unwrap());
    let u = format!(",\"user_dictionary\":{{\"path\":{},\"kind\":\"{}\"}}", serde_json::to_string(s.join("u.csv").to_str().unwrap()).unwrap(), ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"][k]);
    if user { j += &u }
    if decompose { j += ",\"mode\":{\"decompose\":{\"kanji_penalty_length_threshold\":2,\"kanji_penalty_length_penalty\":3000,\"other_penalty_length_threshold\":7,\"other_penalty_length_penalty\":1700}}" }
    j.push('}');
    let c: TokenizerConfig = serde_json::from_str(&j).unwrap();
    let t = Tokenizer::from_config(c).ok().unwrap();
    let ud = if user { Some(DictionaryBuilderResolver::resolve_builder(KINDS[k].clone()).unwrap().build_user_dict(&s.join("u.csv")).ok().unwrap()) } else { None };
    let mode = if decompose { Mode::Decompose(Penalty::default()) } else { Mode::Normal };
    check(t.mode == mode, "the mode");
    let n = Tokenizer::new(DictionaryLoader::load_dictionary(p).unwrap(), ud, mode);
    let x = text(&["foo", "ab", "o", "あ"], 2);
    check(tokens(&t, &x) == tokens(&n, &x), "the same tokens");
    cover(if user { "user dictionary" } else { "no user dictionary" });
}
entries! { sx_entry_c23_kinds => kinds; sx_entry_c23_path => path; sx_entry_c23_missing => missing; sx_entry_c23_user => user; sx_entry_c23_json => json; }

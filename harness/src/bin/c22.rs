//! C22: the command line tool prints what the library computes.
use harness::*;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token::Token;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::Value;
use std::fs;
use std::path::{Path, PathBuf};

/// the command line tool's whole source
#[allow(dead_code)]
mod cli {
    include!("/repo/lindera-cli/src/main.rs");
    pub mod call { pub fn main() -> bool { super::main().is_ok() } }
}
fn run(args: &[&str], stdin: &str) -> (bool, String) { as_program(args, stdin, cli::call::main) }

const KINDS: [&str; 5] = ["ipadic", "ipadic-neologd", "unidic", "ko-dic", "cc-cedict"];
fn source(dir: &Path, fields: usize, unk: usize) {
    fs::create_dir_all(dir).unwrap();
    let pad = |s: &[&str], n: usize, p: &str| { let mut v: Vec<String> = s.iter().map(|s| s.to_string()).collect(); while v.len() < n { v.push(format!("{}{}", p, v.len())); } v.join(",") + "\n" };
    fs::write(dir.join("lex.csv"), pad(&["a", "0", "0", "10"], fields, "d") + &pad(&["ab", "0", "0", "-5"], fields, "e") + &pad(&["b", "0", "0", "20"], fields, "f")).unwrap();
    fs::write(dir.join("char.def"), "DEFAULT 0 1 0\nSPACE 0 1 0\n0x0020 SPACE\n").unwrap();
    fs::write(dir.join("unk.def"), pad(&["DEFAULT", "0", "0", "1000"], unk, "u") + &pad(&["SPACE", "0", "0", "900"], unk, "u")).unwrap();
    fs::write(dir.join("matrix.def"), "1 1\n0 0 3\n").unwrap();
}
fn directory() -> PathBuf {
    let s = scratch();
    source(&s.join("src"), 21, 10);
    DictionaryBuilderResolver::resolve_builder(DictionaryKind::UniDic).unwrap().build_dictionary(&s.join("src"), &s.join("dic")).ok().unwrap();
    s.join("dic")
}
/// what the tool should print for the tokens of one line
fn matches(format: &str, printed: &str, lines: &[Vec<Token>]) {
    match format {
        "mecab" => {
            let mut want = String::new();
            for l in lines { for t in l { want += &format!("{}\t{}\n", t.text, t.details.join(",")); } want += "EOS\n"; }
            check(printed == want, "a line with text and details for each token, EOS after each line");
        }
        "wakati" => {
            let want: String = lines.iter().filter(|l| !l.is_empty()).map(|l| l.iter().map(|t| t.text.as_str()).collect::<Vec<_>>().join(" ") + "\n").collect();
            check(printed == want, "the texts of the tokens separated by blanks, one line for each line");
        }
        _ => {
            let got: Vec<Value> = serde_json::Deserializer::from_str(printed).into_iter::<Value>().map(|v| v.unwrap()).collect();
            check(got.len() == lines.len(), "an array for each line");
            for (g, l) in got.iter().zip(lines) {
                let g = g.as_array().unwrap();
                check(g.len() == l.len(), "an element for each token");
                for (g, t) in g.iter().zip(l) {
                    check(g["text"] == Value::from(t.text.clone()) && g["details"] == Value::from(t.details.clone()), "with its text and details");
                    check(g["byte_start"] == Value::from(t.byte_start) && g["byte_end"] == Value::from(t.byte_end), "its offsets");
                    check(g["word_id"] == serde_json::to_value(t.word_id).unwrap(), "and its word id");
                }
            }
        }
    }
}
fn analyze(a: &Analyzer, input: &str) -> Vec<Vec<Token>> {
    let mut ls: Vec<&str> = input.split('\n').collect();
    if ls.last() == Some(&"") { ls.pop(); }
    ls.iter().map(|l| a.analyze(l.trim()).unwrap()).collect()
}
const FORMATS: [&str; 3] = ["mecab", "wakati", "json"];
fn tool(format: usize, mode: usize, user: bool, cs: &[&str], ts: &[&str], input: &str, stdin: bool) {
    let d = directory();
    let d = d.to_str().unwrap();
    let s = scratch();
    let mut args: Vec<String> = vec!["lindera".into(), "tokenize".into(), "-d".into(), d.into()];
    if format < 3 { args.extend([["-o", "--output-format"][format % 2].to_string(), FORMATS[format].to_string()]); }
    if mode < 2 { args.extend([["-m", "--mode"][mode].to_string(), ["normal", "decompose"][mode].to_string()]); }
    for c in cs { args.extend(["-C".to_string(), c.to_string()]); }
    for c in ts { args.extend(["-T".to_string(), c.to_string()]); }
    let mut ud = None;
    if user {
        fs::write(s.join("u.csv"), "bc,NN,ビー\n").unwrap();
        let b = DictionaryBuilderResolver::resolve_builder(DictionaryKind::KoDic).unwrap();
        b.build_user_dictionary(&s.join("u.csv"), &s.join("u.bin")).ok().unwrap();
        ud = Some(b.build_user_dict(&s.join("u.csv")).ok().unwrap());
        args.extend(["-u".to_string(), s.join("u.bin").to_str().unwrap().to_string()]);
    }
    if !stdin { fs::write(s.join("input.txt"), input).unwrap(); args.push(s.join("input.txt").to_str().unwrap().to_string()); }
    let (ok, printed) = run(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), if stdin { input } else { "" });
    check(ok, "the tool succeeds");
    let c: Vec<BoxCharacterFilter> = cs.iter().map(|f| { let (k, a) = f.split_once(':').unwrap(); CharacterFilterLoader::load_from_value(k, &serde_json::from_str(a).unwrap()).ok().unwrap() }).collect();
    let t: Vec<BoxTokenFilter> = ts.iter().map(|f| { let (k, a) = f.split_once(':').unwrap(); TokenFilterLoader::load_from_value(k, &serde_json::from_str(a).unwrap()).ok().unwrap() }).collect();
    let a = Analyzer::new(c, Tokenizer::new(DictionaryLoader::load_dictionary(d.into()).unwrap(), ud, if mode == 1 { Mode::Decompose(Penalty::default()) } else { Mode::Normal }), t);
    let want = analyze(&a, input);
    if want.len() > 1 { cover("several lines") }
    if want.iter().any(|l| l.len() > 1) { cover("several tokens") }
    if want.iter().any(|l| l.is_empty()) { cover("an empty line") }
    matches(if format < 3 { FORMATS[format] } else { "mecab" }, &printed, &want);
    out_str(&printed);
}
/// lines of words, blanks and line ends, in every format and mode
fn lines() {
    let f = choose(4);
    let x = text_upto(&["ab", "\n", " ", "あ", "b", "\r\n"], 3);
    tool(f, choose(3), false, &[], &[], &x, flag());
}
/// user dictionaries and filters in the order given
fn filters() {
    let c = [r#"mapping:{"mapping":{"a":"bc"}}"#, r#"regex:{"pattern":"b+","replacement":"a"}"#];
    let t = [r#"mapping:{"mapping":{"b":"A","a":"b"}}"#, r#"uppercase:{}"#, r#"stop_words:{"words":["B","b"]}"#];
    let cs: Vec<&str> = (0..choose(3)).map(|_| c[choose(2)]).collect();
    let ts: Vec<&str> = (0..choose(3)).map(|_| t[choose(3)]).collect();
    let x = text(&["ab", "bc", "あ"], 2) + "\nbca\n";
    tool(choose(3), 2, flag(), &cs, &ts, &x, false);
}
/// the kinds of dictionaries contained
fn list() {
    let (ok, printed) = run(&["lindera", "list"], "");
    check(ok, "the tool succeeds");
    let mut want: Vec<String> = KINDS.iter().filter(|k| { let k: DictionaryKind = k.parse().ok().unwrap(); DictionaryLoader::load_dictionary_from_kind(k).is_ok() }).map(|s| s.to_string()).collect();
    let mut got: Vec<String> = printed.lines().map(|s| s.to_string()).collect();
    want.sort();
    got.sort();
    check(got == want && printed.ends_with('\n'), "exactly the dictionaries that load, one on each line");
    cover("listed");
}
fn files(d: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = fs::read_dir(d).unwrap().map(|e| { let e = e.unwrap(); (e.file_name().to_str().unwrap().to_string(), fs::read(e.path()).unwrap()) }).collect();
    v.sort();
    v
}
/// building a dictionary or a user dictionary
fn build() {
    let k = choose(5);
    let s = scratch();
    let kind: DictionaryKind = KINDS[k].parse().ok().unwrap();
    let b = DictionaryBuilderResolver::resolve_builder(kind).ok().unwrap();
    let src = s.join("src");
    let fields = [13, 13, 21, 12, 12][k];
    source(&src, fields, [11, 11, 10, 12, 10][k]);
    let broken = flag();
    let p = |x: &Path| x.to_str().unwrap().to_string();
    if flag() {
        let csv = s.join(["u.csv", "words.v1.csv", "words"][choose(3)]);
        fs::write(&csv, if broken { "foo,NN\n" } else { "foo,NN,フー\nbc,VV,ビー\n" }).unwrap();
        let (got, want) = (s.join("got"), s.join("want"));
        let (ok, _) = run(&["lindera", "build", "-u", "-t", KINDS[k], &p(&csv), &p(&got)], "");
        let name = format!("{}.bin", csv.file_stem().unwrap().to_str().unwrap());
        let r = b.build_user_dictionary(&csv, &want.join(&name));
        check(ok == r.is_ok(), "the tool succeeds exactly if the library does");
        if ok { cover("user dictionary"); check(files(&got) == files(&want), "the same file, named after the source"); } else { cover("rejected") }
        return;
    }
    if broken { fs::write(src.join("matrix.def"), "1 1\n0 1 3\n").unwrap(); }
    let (got, want) = (s.join("got"), s.join("want"));
    let (ok, _) = run(&["lindera", "build", "--dic-type", KINDS[k], &p(&src), &p(&got)], "");
    let r = b.build_dictionary(&src, &want);
    check(ok == r.is_ok() && ok != broken, "the tool succeeds exactly if the library does");
    if ok { cover("dictionary"); check(files(&got).len() > 6 && files(&got) == files(&want), "the same files"); } else { cover("rejected") }
}
/// options that cannot be served
fn errors() {
    let d = directory();
    let d = d.to_str().unwrap();
    let s = scratch();
    fs::write(s.join("u.csv"), "bc,NN,ビー\n").unwrap();
    fs::write(s.join("input.txt"), "ab\n").unwrap();
    let (i, u, n) = (s.join("input.txt"), s.join("u.csv"), s.join("nowhere"));
    let (i, u, n) = (i.to_str().unwrap(), u.to_str().unwrap(), n.to_str().unwrap());
    let cases: [(&[&str], bool); 11] = [
        (&["-d", d, i], true), (&["-d", d, "-o", "xml", i], false), (&["-d", d, "-o", "MECAB", i], false), (&["-d", n, i], false), (&[i], false), (&["-d", d, n], false),
        (&["-d", d, "-u", u, i], false), (&["-d", d, "-u", n, i], false), (&["-d", d, "-C", "mappings:{}", i], false), (&["-d", d, "-T", "length:{\"min\":-1}", i], false), (&["-t", "ipadic-neologd", i], DictionaryKind::contained_variants().contains(&DictionaryKind::IPADICNEologd)),
    ];
    let k = choose(cases.len());
    let mut args = vec!["lindera", "tokenize"];
    args.extend(cases[k].0);
    if k == 10 { args.pop(); }
    let (ok, printed) = run(&args, "");
    check(ok == cases[k].1, "what cannot be served is an error");
    if !ok { check(printed.is_empty(), "and prints nothing"); cover("rejected") } else { cover("accepted") }
}
/// inputs longer than any buffer
fn large() {
    let x = if flag() { "ab あb\n".repeat(400) } else { "abb".repeat(2000) + "\n" + &"あ".repeat(1000) + "\nab" };
    tool(choose(3), 2, false, &[], &[], &x, flag());
}
entries! { sx_entry_c22_lines => lines; sx_entry_c22_filters => filters; sx_entry_c22_list => list; sx_entry_c22_build => build; sx_entry_c22_errors => errors; sx_entry_c22_large => large; }

//! C24: an analyzer configuration builds the chain it describes.
use harness::dict;
use harness::filters::*;
use harness::tokens::{all, token, Fields};
use harness::*;
use lindera_analyzer::analyzer::{Analyzer, AnalyzerConfig};
use lindera_core::mode::Mode;
use lindera_core::mode::Penalty;
use lindera_dictionary::{DictionaryBuilderResolver, DictionaryKind, DictionaryLoader};
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::mapping::{MappingCharacterFilter, MappingCharacterFilterConfig};
use lindera_filter::character_filter::regex::{RegexCharacterFilter, RegexCharacterFilterConfig};
use lindera_filter::character_filter::unicode_normalize::*;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilterLoader};
use lindera_filter::token_filter::japanese_base_form::*;
use lindera_filter::token_filter::japanese_compound_word::*;
use lindera_filter::token_filter::japanese_kana::*;
use lindera_filter::token_filter::japanese_katakana_stem::*;
use lindera_filter::token_filter::japanese_keep_tags::*;
use lindera_filter::token_filter::japanese_number::*;
use lindera_filter::token_filter::japanese_reading_form::*;
use lindera_filter::token_filter::japanese_stop_tags::*;
use lindera_filter::token_filter::keep_words::*;
use lindera_filter::token_filter::korean_keep_tags::*;
use lindera_filter::token_filter::korean_reading_form::*;
use lindera_filter::token_filter::korean_stop_tags::*;
use lindera_filter::token_filter::length::*;
use lindera_filter::token_filter::lowercase::*;
use lindera_filter::token_filter::mapping::{MappingTokenFilter, MappingTokenFilterConfig};
use lindera_filter::token_filter::stop_words::*;
use lindera_filter::token_filter::uppercase::*;
use lindera_filter::token_filter::{BoxTokenFilter, TokenFilterLoader};
use lindera_tokenizer::tokenizer::Tokenizer;
use serde_json::Value;
use std::fs;
use std::num::NonZeroUsize;
use std::path::PathBuf;

fn set<T: FromIterator<String>>(v: &[&str]) -> T { v.iter().map(|s| s.to_string()).collect() }
fn map(v: &[(&str, &str)]) -> std::collections::HashMap<String, String> { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
fn value(s: &str) -> Value { serde_json::from_str(s).unwrap() }

// ---- character filters: name, arguments, the filter they describe, the filter of from_slice
type C = (&'static str, &'static str, BoxCharacterFilter, BoxCharacterFilter);
fn character(k: usize) -> C {
    let mk = |a, j: &'static str, n| -> C { ("japanese_iteration_mark", j, JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(a, n)).into(), JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::from_slice(j.as_bytes()).unwrap()).into()) };
    let norm = |k: UnicodeNormalizeKind, j: &'static str| -> C { ("unicode_normalize", j, normalize(&k).into(), UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::from_slice(j.as_bytes()).unwrap()).into()) };
    match k {
        0 => mk(true, r#"{"normalize_kanji":true,"normalize_kana":false}"#, false),
        1 => mk(false, r#"{"normalize_kana":true,"normalize_kanji":false}"#, true),
        2 => { let j = r#"{"mapping":{"a":"bx","ｶ":"","いa":"う"}}"#; ("mapping", j, MappingCharacterFilter::new(MappingCharacterFilterConfig::new(map(&[("a", "bx"), ("ｶ", ""), ("いa", "う")]))).unwrap().into(), MappingCharacterFilter::new(MappingCharacterFilterConfig::from_slice(j.as_bytes()).unwrap()).unwrap().into()) }
        3 => { let j = r#"{"pattern":"い+","replacement":"ab"}"#; ("regex", j, regex("い+", "ab").into(), RegexCharacterFilter::new(RegexCharacterFilterConfig::from_slice(j.as_bytes()).unwrap()).unwrap().into()) }
        4 => norm(UnicodeNormalizeKind::NFC, r#"{"kind":"nfc"}"#),
        5 => norm(UnicodeNormalizeKind::NFD, r#"{"kind":"nfd"}"#),
        6 => norm(UnicodeNormalizeKind::NFKC, r#"{"kind":"nfkc"}"#),
        _ => norm(UnicodeNormalizeKind::NFKD, r#"{"kind":"nfkd"}"#),
    }
}
const CHARACTER: usize = 8;
/// every character filter by its name and arguments
fn characters() {
    let (name, args, want, slice) = character(choose(CHARACTER));
    let x = text(&["a", "い", "ｶ", "々", "ゝ", "が", "か\u{3099}", "漢"], 3);
    let v = CharacterFilterLoader::load_from_value(name, &value(args)).ok().unwrap();
    let f = CharacterFilterLoader::load_from_cli_flag(&format!("{}:{}", name, args)).ok().unwrap();
    let w = want.apply(&x).unwrap();
    if w.0 != x { cover("changed") } else { cover("left alone") }
    check(v.name() == name && f.name() == name && want.name() == name, "the filter named");
    check(v.apply(&x).unwrap() == w, "the filter described by the arguments");
    check(f.apply(&x).unwrap() == w, "the same from the command line");
    check(slice.apply(&x).unwrap() == w, "the same from bytes");
    check(v.box_clone().apply(&x).unwrap() == w, "a clone does the same");
    out_str(&w.0);
}
// ---- token filters
type T = (&'static str, &'static str, BoxTokenFilter, Option<BoxTokenFilter>);
fn token_filter(k: usize) -> T {
    macro_rules! plain { ($n:literal, $f:ident, $c:ident, $j:literal, $want:expr) => {{ let j: &'static str = $j; ($n, j, $f::new($want).into(), Some($f::new($c::from_slice(j.as_bytes()).unwrap()).into())) }}; }
    use DictionaryKind::*;
    match k {
        0 => plain!("japanese_base_form", JapaneseBaseFormTokenFilter, JapaneseBaseFormTokenFilterConfig, r#"{"kind":"ipadic"}"#, JapaneseBaseFormTokenFilterConfig::new(IPADIC)),
        1 => plain!("japanese_base_form", JapaneseBaseFormTokenFilter, JapaneseBaseFormTokenFilterConfig, r#"{"kind":"unidic"}"#, JapaneseBaseFormTokenFilterConfig::new(UniDic)),
        2 => plain!("japanese_compound_word", JapaneseCompoundWordTokenFilter, JapaneseCompoundWordTokenFilterConfig, r#"{"kind":"ipadic","tags":["名詞","d,*,x"],"new_tag":"新,語"}"#, JapaneseCompoundWordTokenFilterConfig::new(IPADIC, set(&["d,*,x", "名詞"]), Some("新,語".into())).unwrap()),
        3 => plain!("japanese_compound_word", JapaneseCompoundWordTokenFilter, JapaneseCompoundWordTokenFilterConfig, r#"{"kind":"unidic","tags":["名詞,数"]}"#, JapaneseCompoundWordTokenFilterConfig::new(UniDic, set(&["名詞,数"]), None).unwrap()),
        4 => plain!("japanese_kana", JapaneseKanaTokenFilter, JapaneseKanaTokenFilterConfig, r#"{"kind":"katakana"}"#, JapaneseKanaTokenFilterConfig::new(KanaKind::Katakana)),
        5 => plain!("japanese_kana", JapaneseKanaTokenFilter, JapaneseKanaTokenFilterConfig, r#"{"kind":"hiragana"}"#, JapaneseKanaTokenFilterConfig::new(KanaKind::Hiragana)),
        6 => plain!("japanese_katakana_stem", JapaneseKatakanaStemTokenFilter, JapaneseKatakanaStemTokenFilterConfig, r#"{"min":1}"#, JapaneseKatakanaStemTokenFilterConfig::new(NonZeroUsize::new(1).unwrap())),
        7 => plain!("japanese_katakana_stem", JapaneseKatakanaStemTokenFilter, JapaneseKatakanaStemTokenFilterConfig, r#"{}"#, JapaneseKatakanaStemTokenFilterConfig::new(NonZeroUsize::new(3).unwrap())),
        8 => plain!("japanese_keep_tags", JapaneseKeepTagsTokenFilter, JapaneseKeepTagsTokenFilterConfig, r#"{"tags":["名詞","名詞,数","d,*,x"]}"#, JapaneseKeepTagsTokenFilterConfig::new(set(&["名詞", "名詞,数", "d,*,x"]))),
        9 => plain!("japanese_number", JapaneseNumberTokenFilter, JapaneseNumberTokenFilterConfig, r#"{"tags":["名詞,数"]}"#, JapaneseNumberTokenFilterConfig::new(Some(set(&["名詞,数"])))),
        10 => plain!("japanese_number", JapaneseNumberTokenFilter, JapaneseNumberTokenFilterConfig, r#"{}"#, JapaneseNumberTokenFilterConfig::new(None)),
        11 => plain!("japanese_reading_form", JapaneseReadingFormTokenFilter, JapaneseReadingFormTokenFilterConfig, r#"{"kind":"ipadic-neologd"}"#, JapaneseReadingFormTokenFilterConfig::new(IPADICNEologd)),
        12 => plain!("japanese_stop_tags", JapaneseStopTagsTokenFilter, JapaneseStopTagsTokenFilterConfig, r#"{"tags":["名詞","名詞,数","d,*,x"]}"#, JapaneseStopTagsTokenFilterConfig::new(set(&["名詞", "名詞,数", "d,*,x"]))),
        13 => plain!("keep_words", KeepWordsTokenFilter, KeepWordsTokenFilterConfig, r#"{"words":["aア","十一"]}"#, KeepWordsTokenFilterConfig::new(set(&["aア", "十一"]))),
        14 => plain!("korean_keep_tags", KoreanKeepTagsTokenFilter, KoreanKeepTagsTokenFilterConfig, r#"{"tags":["名詞"]}"#, KoreanKeepTagsTokenFilterConfig::new(set(&["名詞"]))),
        15 => plain!("korean_stop_tags", KoreanStopTagsTokenFilter, KoreanStopTagsTokenFilterConfig, r#"{"tags":["名詞"]}"#, KoreanStopTagsTokenFilterConfig::new(set(&["名詞"]))),
        16 => plain!("length", LengthTokenFilter, LengthTokenFilterConfig, r#"{"min":2}"#, LengthTokenFilterConfig::new(Some(2), None)),
        17 => plain!("length", LengthTokenFilter, LengthTokenFilterConfig, r#"{"max":1}"#, LengthTokenFilterConfig::new(None, Some(1))),
        18 => plain!("length", LengthTokenFilter, LengthTokenFilterConfig, r#"{"max":2,"min":2}"#, LengthTokenFilterConfig::new(Some(2), Some(2))),
        19 => { let j = r#"{"mapping":{"a":"ああ","十":""}}"#; ("mapping", j, MappingTokenFilter::new(MappingTokenFilterConfig::new(map(&[("十", ""), ("a", "ああ")]))).unwrap().into(), Some(MappingTokenFilter::new(MappingTokenFilterConfig::from_slice(j.as_bytes()).unwrap()).unwrap().into())) }
        20 => plain!("stop_words", StopWordsTokenFilter, StopWordsTokenFilterConfig, r#"{"words":["aア","十一"]}"#, StopWordsTokenFilterConfig::new(set(&["aア", "十一"]))),
        21 => ("korean_reading_form", "{}", KoreanReadingFormTokenFilter::new().into(), None),
        22 => ("lowercase", "{}", LowercaseTokenFilter::new().into(), None),
        _ => ("uppercase", "{}", UppercaseTokenFilter::new().into(), None),
    }
}
const TOKEN: usize = 24;
fn run(f: &BoxTokenFilter, ts: &[Fields]) -> Vec<Fields> {
    let mut v: Vec<harness::tokens::Token> = ts.iter().map(|t| harness::tokens::Token { text: t.0.clone(), byte_start: t.1, byte_end: t.2, position: t.3, position_length: t.4, word_id: harness::tokens::WordId(t.5 .0, t.5 .1), details: t.6.clone() }).collect();
    f.apply(&mut v).unwrap();
    all(&v)
}
/// every token filter by its name and arguments
fn tokens() {
    let (name, args, want, slice) = token_filter(choose(TOKEN));
    let ts: Vec<_> = (0..2).map(|i| { let t = ["a", "B", "ア", "ー", "十", "か"]; let x = if i == 0 { text(&t, 2) } else { "aア".to_string() }; let d: &[&str] = [&["名詞", "数", "*", "*"][..], &["名詞", "*", "*", "*", "p", "q", "基", "ヨ", "z", "y", "表"], &["d", "e", "x", "*"], &["UNK"]][choose(4)]; token(&x, d) }).collect();
    let ts = all(&ts);
    let v = TokenFilterLoader::load_from_value(name, &value(args)).ok().unwrap();
    let f = TokenFilterLoader::load_from_cli_flag(&format!("{}:{}", name, args)).ok().unwrap();
    let w = run(&want, &ts);
    if w.len() < ts.len() { cover("fewer") } else if w.iter().zip(&ts).any(|(a, b)| a.0 != b.0) { cover("changed") } else { cover("left alone") }
    check(v.name() == name && f.name() == name && want.name() == name, "the filter named");
    check(run(&v, &ts) == w, "the filter described by the arguments");
    check(run(&f, &ts) == w, "the same from the command line");
    if let Some(s) = slice { check(run(&s, &ts) == w, "the same from bytes"); }
    check(run(&v.box_clone(), &ts) == w, "a clone does the same");
    out(w.len() as u64);
}
// ---- whole analyzers
fn directory() -> PathBuf {
    let s = scratch();
    let (i, o) = (s.join("src"), s.join("dic"));
    fs::create_dir_all(&i).unwrap();
    let row = |w: &str, c: i32| { let mut v = vec![w.to_string(), "0".into(), "0".into(), c.to_string()]; while v.len() < 21 { v.push(format!("d{}", v.len())); } v.join(",") + "\n" };
    fs::write(i.join("lex.csv"), row("a", 10) + &row("ab", -5) + &row("い", 20)).unwrap();
    fs::write(i.join("char.def"), "DEFAULT 0 1 0\nKANA 1 0 0\n0x3042 KANA\n").unwrap();
    fs::write(i.join("unk.def"), "DEFAULT,0,0,1000,*,*,*,*,*,*\nKANA,0,0,900,*,*,*,*,*,*\n").unwrap();
    fs::write(i.join("matrix.def"), "1 1\n0 0 3\n").unwrap();
    DictionaryBuilderResolver::resolve_builder(DictionaryKind::UniDic).unwrap().build_dictionary(&i, &o).ok().unwrap();
    o
}
fn quote(p: &PathBuf) -> String { serde_json::to_string(p.to_str().unwrap()).unwrap() }
fn list(fs: &[(&str, &str)]) -> String { fs.iter().map(|(k, a)| if *a == "{}" && k.ends_with("case") { format!("{{\"kind\":\"{}\"}}", k) } else { format!("{{\"kind\":\"{}\",\"args\":{}}}", k, a) }).collect::<Vec<_>>().join(",") }
/// a chain of up to two filters of either kind, in the order written
fn chain() {
    let p = directory();
    let cs: Vec<C> = (0..choose(3)).map(|_| character([2, 3, 6][choose(3)])).collect();
    let ts: Vec<T> = (0..choose(3)).map(|_| token_filter([2, 16, 19, 23][choose(4)])).collect();
    let decompose = flag();
    let mode = if decompose { Mode::Decompose(Penalty::default()) } else { Mode::Normal };
    let c: Vec<(&str, &str)> = cs.iter().map(|c| (c.0, c.1)).collect();
    let t: Vec<(&str, &str)> = ts.iter().map(|c| (c.0, c.1)).collect();
    let mut parts = vec![format!("\"tokenizer\":{{\"dictionary\":{{\"path\":{}}},\"mode\":{}}}", quote(&p), serde_json::to_string(&mode).unwrap())];
    if !c.is_empty() || flag() { parts.push(format!("\"character_filters\":[{}]", list(&c))); }
    if !t.is_empty() { parts.insert(0, format!("\"token_filters\":[{}]", list(&t))); }
    let json = format!("{{{}}}", parts.join(","));
    let config = if flag() { let f = scratch().join("analyzer.json"); fs::write(&f, &json).unwrap(); AnalyzerConfig::from_file(&f).ok().unwrap() } else { AnalyzerConfig::from_slice(json.as_bytes()).ok().unwrap() };
    let a = Analyzer::from_config(&config).ok().unwrap();
    check(a.character_filters.len() == cs.len() && a.token_filters.len() == ts.len(), "every filter listed, no other");
    check(a.character_filters.iter().zip(&cs).all(|(a, b)| a.name() == b.0) && a.token_filters.iter().zip(&ts).all(|(a, b)| a.name() == b.0), "in the order listed");
    let w = Analyzer::new(cs.into_iter().map(|c| c.2).collect(), Tokenizer::new(DictionaryLoader::load_dictionary(p).unwrap(), None, mode), ts.into_iter().map(|t| t.2).collect());
    let x = text(&["a", "い", "ｶ", "b"], 2);
    let want = all(&w.analyze(&x).unwrap());
    check(all(&a.analyze(&x).unwrap()) == want, "the tokens of the analyzer built from the parts");
    check(all(&a.clone().analyze(&x).unwrap()) == want, "a clone gives the same tokens");
    cover("compared");
    out(want.len() as u64);
}
/// configurations with something wrong
fn broken() {
    let p = directory();
    let good = format!("\"tokenizer\":{{\"dictionary\":{{\"path\":{}}}}}", quote(&p));
    let c = r#""character_filters":[{"kind":"mapping","args":{"mapping":{"a":"b"}}}]"#;
    let t = r#""token_filters":[{"kind":"lowercase"},{"kind":"length","args":{"min":1}}]"#;
    let cases: Vec<(String, bool)> = vec![
        (format!("{{{},{},{}}}", good, c, t), true), (format!("{{{},{}}}", t, good), true), (format!("{{{}}}", good), true),
        (format!("{{{},{}}}", c, t), false), ("{}".into(), false), ("[]".into(), false), ("1".into(), false), ("null".into(), false), (String::new(), false),
        (format!("{{{},{},{}", good, c, t), false), (format!("{{{}}}x", good), false),
        (format!("{{{},{}}}", good, c.replace("mapping\",", "mappings\",")), false), (format!("{{{},{}}}", good, t.replace("lowercase", "lowercas")), false),
        (format!("{{{},{}}}", good, c.replace("{\"a\":\"b\"}", "1")), false), (format!("{{{},{}}}", good, t.replace("{\"min\":1}", "{\"min\":-1}")), false), (format!("{{{},{}}}", good, t.replace("{\"min\":1}", "1")), false),
        // arguments have their own object
        (format!("{{{},{}}}", good, t.replace("\"args\":{\"min\":1}", "\"min\":1")), false), (format!("{{{},{}}}", good, c.replace("\"args\":{\"mapping\":{\"a\":\"b\"}}", "\"mapping\":{\"a\":\"b\"}")), false),
        (format!("{{{}}}", good.replace("\"path\"", "\"pat\"")), false), (format!("{{{}}}", good.replace("/dic", "/nowhere")), false), ("{\"tokenizer\":1}".into(), false), ("{\"tokenizer\":{}}".into(), false),
        ("{\"tokenizer\":{\"dictionary\":{}}}".into(), false), (format!("{{{}}}", good.replace("}}", "},\"mode\":\"fast\"}")), false), (format!("{{{}}}", good.replace("}}", "},\"user_dictionary\":{\"path\":\"/nowhere.csv\",\"kind\":\"ipadic\"}}")), false),
    ];
    let (json, ok) = &cases[choose(cases.len())];
    let build = |c: Result<AnalyzerConfig, _>| c.ok().and_then(|c| Analyzer::from_config(&c).ok()).is_some();
    let r = build(AnalyzerConfig::from_slice(json.as_bytes()));
    check(r == *ok, "complete configurations are accepted, others rejected");
    let f = scratch().join("analyzer.json");
    check(AnalyzerConfig::from_file(&f).is_err(), "a missing file is an error");
    fs::write(&f, json).unwrap();
    check(build(AnalyzerConfig::from_file(&f)) == *ok, "the same from a file");
    cover(if r { "accepted" } else { "rejected" });
}
/// an analyzer without its configuration and its clone
fn cloned() {
    let cd = dict::chardef("DEFAULT 0 1 0\n");
    let ud = dict::unk(&cd, &[dict::U { category: "DEFAULT", cost: var_i16(), left: 0, right: 0 }]);
    let d = dict::dictionary(&[dict::w("a", 10, 0, 0), dict::w("ab", var_i16(), 0, 0), dict::w("b", 5, 0, 0), dict::w("い", 20, 0, 0)], dict::matrix(1, 1, &[-3]), cd, ud);
    let user = if flag() { Some(dict::user_dictionary(&[dict::w("aい", -50, 0, 0)])) } else { None };
    let mode = if flag() { Mode::Decompose(Penalty::default()) } else { Mode::Normal };
    let cs = vec![character(choose(CHARACTER)).2];
    let ts = vec![token_filter(choose(TOKEN)).2];
    let a = Analyzer::new(cs, Tokenizer::new(d, user, mode.clone()), ts);
    let b = a.clone();
    let x = text(&["a", "い", "b", "ア"], 2);
    check(b.tokenizer.mode == mode && b.tokenizer.user_dictionary.is_some() == a.tokenizer.user_dictionary.is_some(), "mode and user dictionary are cloned");
    let want = all(&a.analyze(&x).unwrap());
    drop(a);
    check(all(&b.analyze(&x).unwrap()) == want, "a clone gives the same tokens");
    cover("compared");
    out(want.len() as u64);
}
entries! { sx_entry_c24_characters => characters; sx_entry_c24_tokens => tokens; sx_entry_c24_chain => chain; sx_entry_c24_broken => broken; sx_entry_c24_cloned => cloned; }

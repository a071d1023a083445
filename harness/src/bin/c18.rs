//! C18: configurations round-trip and bad ones are rejected with an error.
use harness::tokens::*;
use harness::*;
use lindera_core::mode::{Mode, Penalty};
use lindera_dictionary::{DictionaryConfig, DictionaryKind, UserDictionaryConfig};
use lindera_filter::character_filter::CharacterFilterLoader;
use lindera_filter::token_filter::TokenFilterLoader;
use lindera_tokenizer::tokenizer::TokenizerConfig;
use serde_json::Value;
use std::str::FromStr;

const KINDS: &[(&str, DictionaryKind)] = &[("ipadic", DictionaryKind::IPADIC), ("ipadic-neologd", DictionaryKind::IPADICNEologd), ("unidic", DictionaryKind::UniDic), ("ko-dic", DictionaryKind::KoDic), ("cc-cedict", DictionaryKind::CcCedict)];
/// every ASCII string of up to 15 characters
fn any_ascii() -> String { let n = choose(16); let mut s = String::new(); for _ in 0..n { any_char_n(&mut s, 1); } s }
fn kinds() {
    let s = any_ascii();
    match DictionaryKind::from_str(&s) {
        Ok(k) => { cover("accepted"); check(KINDS.iter().any(|x| x.0 == s && x.1 == k), "only a name parses, to its value"); check(k.as_str() == s, "it prints back the same"); out_str(&s); }
        Err(_) => { cover("rejected"); check(!KINDS.iter().any(|x| x.0 == s), "every name parses"); }
    }
    for (n, k) in KINDS {
        check(serde_json::to_string(k).unwrap() == format!("\"{}\"", n), "kinds serialize as their names");
        check(serde_json::from_str::<DictionaryKind>(&format!("\"{}\"", n)).unwrap() == *k, "and read back");
    }
    check(DictionaryKind::variants() == KINDS.iter().map(|k| k.1.clone()).collect::<Vec<_>>(), "these are all kinds");
}
fn modes() {
    let s = any_ascii();
    match Mode::from_str(&s) {
        Ok(Mode::Normal) => { cover("accepted"); check(s == "normal", "the name of the mode"); }
        Ok(Mode::Decompose(p)) => {
            cover("accepted");
            check(s == "decompose", "the name of the mode");
            check(p == Penalty { kanji_penalty_length_threshold: 2, kanji_penalty_length_penalty: 3000, other_penalty_length_threshold: 7, other_penalty_length_penalty: 1700 }, "the default penalty");
        }
        Err(_) => { cover("rejected"); check(s != "normal" && s != "decompose", "the names parse"); }
    }
}
/// tokenizer configurations serialize and read back equal
fn round_trip() {
    let kind = |f: usize| if f < 5 { Some(KINDS[f].1.clone()) } else { None };
    let path = |k: usize| [None, Some("/d/x".into()), Some("a\"\\\n語".into()), Some("".into())][k].clone();
    let k = choose(6);
    let user_dictionary = path(choose(3)).map(|path| UserDictionaryConfig { path, kind: kind(5 - k) });
    let mode = if flag() { Mode::Normal } else { Mode::Decompose(Penalty { kanji_penalty_length_threshold: [0, 2][choose(2)], kanji_penalty_length_penalty: -3000, other_penalty_length_threshold: usize::MAX, other_penalty_length_penalty: [i32::MIN, 1700][choose(2)] }) };
    let c = TokenizerConfig { dictionary: DictionaryConfig { kind: kind(k), path: path(choose(4)) }, user_dictionary, mode };
    let s = serde_json::to_string(&c).unwrap();
    out_str(&s);
    let r = serde_json::from_str::<TokenizerConfig>(&s);
    check(r.is_ok(), "a serialized configuration is accepted");
    check(r.unwrap() == c, "a configuration reads back equal");
    let v = serde_json::to_value(&c).unwrap();
    check(serde_json::from_value::<TokenizerConfig>(v).map_or(false, |r| r == c), "also through a value");
    cover("round trip");
}
/// members in any order, missing, repeated, of the wrong type
fn members() {
    const M: &[(usize, bool, &str)] = &[
        (0, true, r#""dictionary":{"kind":"ipadic"}"#), (0, true, r#""dictionary":{"path":"/d","kind":null}"#), (0, false, r#""dictionary":{"kind":"IPADIC"}"#), (0, false, r#""dictionary":null"#), (0, false, r#""dictionary":{"path":1}"#),
        (1, true, r#""user_dictionary":{"path":"/u.csv","kind":"unidic"}"#), (1, true, r#""user_dictionary":null"#), (1, false, r#""user_dictionary":{"kind":"unidic"}"#), (1, false, r#""user_dictionary":"/u.csv""#),
        (2, true, r#""mode":"normal""#), (2, true, r#""mode":{"decompose":{"kanji_penalty_length_threshold":1,"kanji_penalty_length_penalty":2,"other_penalty_length_threshold":3,"other_penalty_length_penalty":-4}}"#),
        (2, false, r#""mode":"fast""#), (2, false, r#""mode":1"#), (2, false, r#""mode":{"decompose":{"kanji_penalty_length_threshold":1}}"#),
    ];
    let n = choose(4);
    let m: Vec<usize> = (0..n).map(|_| choose(M.len())).collect();
    let s = format!("{{{}}}", m.iter().map(|k| M[*k].2).collect::<Vec<_>>().join(","));
    let r = serde_json::from_str::<TokenizerConfig>(&s);
    let count = |f: usize| m.iter().filter(|k| M[**k].0 == f).count();
    let ok = m.iter().all(|k| M[*k].1) && count(0) == 1 && count(1) <= 1 && count(2) <= 1;
    check(r.is_ok() == ok, "exactly the well-formed configurations are accepted");
    if let Ok(c) = r {
        cover("accepted");
        let has = |k: usize| m.contains(&k);
        check(c.dictionary == if has(0) { DictionaryConfig { kind: Some(DictionaryKind::IPADIC), path: None } } else { DictionaryConfig { kind: None, path: Some("/d".into()) } }, "the dictionary given");
        check(c.user_dictionary == if has(5) { Some(UserDictionaryConfig { path: "/u.csv".into(), kind: Some(DictionaryKind::UniDic) }) } else { None }, "the user dictionary given, or none");
        check(c.mode == if has(10) { Mode::Decompose(Penalty { kanji_penalty_length_threshold: 1, kanji_penalty_length_penalty: 2, other_penalty_length_threshold: 3, other_penalty_length_penalty: -4 }) } else { Mode::Normal }, "the mode given, or normal");
    } else { cover("rejected") }
}
#[derive(Clone, Copy, PartialEq)]
enum T { Words, Tags, OptTags, OptTag, OptNum, Positive, Map, Bool, Kind, Kana, Form, Str, Pattern }
use T::*;
const CHAR: &[(&str, &[(&str, T)])] = &[
    ("japanese_iteration_mark", &[("normalize_kanji", Bool), ("normalize_kana", Bool)]),
    ("mapping", &[("mapping", Map)]), ("regex", &[("pattern", Pattern), ("replacement", Str)]), ("unicode_normalize", &[("kind", Form)]),
];
const TOKEN: &[(&str, &[(&str, T)])] = &[
    ("japanese_base_form", &[("kind", Kind)]), ("japanese_compound_word", &[("kind", Kind), ("tags", Tags), ("new_tag", OptTag)]), ("japanese_kana", &[("kind", Kana)]),
    ("japanese_katakana_stem", &[("min", Positive)]), ("japanese_keep_tags", &[("tags", Tags)]), ("japanese_number", &[("tags", OptTags)]),
    ("japanese_reading_form", &[("kind", Kind)]), ("japanese_stop_tags", &[("tags", Tags)]), ("keep_words", &[("words", Words)]),
    ("korean_keep_tags", &[("tags", Words)]), ("korean_stop_tags", &[("tags", Words)]), ("length", &[("min", OptNum), ("max", OptNum)]),
    ("mapping", &[("mapping", Map)]), ("stop_words", &[("words", Words)]), ("korean_reading_form", &[]), ("lowercase", &[]), ("uppercase", &[]),
];
const VALUES: &[(&str, &[T])] = &[
    ("null", &[OptTags, OptTag, OptNum]), ("true", &[Bool]), ("1", &[OptNum, Positive]), ("0", &[OptNum]), ("-1", &[]), ("1.5", &[]), ("\"\"", &[OptTag, Str, Pattern]), ("\"a\"", &[OptTag, Str, Pattern]), ("\"(\"", &[OptTag, Str]),
    ("\"ipadic\"", &[OptTag, Kind, Str, Pattern]), ("\"hiragana\"", &[OptTag, Kana, Str, Pattern]), ("\"nfkc\"", &[OptTag, Form, Str, Pattern]), ("\"a,b,c,d\"", &[OptTag, Str, Pattern]), ("\"a,b,c,d,e\"", &[Str, Pattern]),
    ("[]", &[Words, Tags, OptTags]), ("[\"a\"]", &[Words, Tags, OptTags]), ("[\"a,b,c,d\",\"\"]", &[Words, Tags, OptTags]), ("[\"a,b,c,d,e\"]", &[Words]), ("[\"b\",\"a,,,,\"]", &[Words]), ("[1]", &[]), ("[\"a\",null]", &[]),
    ("{}", &[Map]), ("{\"a\":\"b\"}", &[Map]), ("{\"\":\"b\"}", &[]), ("{\"a\":1}", &[]), ("{\"a\\u0000\":\"b\"}", &[]),
];
fn valid(t: T) -> &'static str { VALUES.iter().rev().find(|v| v.1.contains(&t)).unwrap().0 }
fn optional(t: T) -> bool { matches!(t, OptTags | OptTag | OptNum | Positive) }
/// one member of any value or missing, the others valid
fn member(ft: &[(&str, &[(&str, T)])]) -> (String, String, bool, bool) {
    let (name, fields) = ft[choose(ft.len())];
    let mut s = vec![];
    let (mut ok, mut unspecified) = (true, false);
    if !fields.is_empty() {
        let at = choose(fields.len());
        for (i, (f, t)) in fields.iter().enumerate() {
            if i != at { s.push(format!("\"{}\":{}", f, valid(*t))); continue; }
            let k = choose(VALUES.len() + 1);
            if k == VALUES.len() { ok = optional(*t); continue; }
            ok = VALUES[k].1.contains(t);
            unspecified = *t == Map && VALUES[k].0.contains("\"\""); // an empty key
            s.push(format!("\"{}\":{}", f, VALUES[k].0));
        }
    }
    (name.to_string(), format!("{{{}}}", s.join(",")), ok, unspecified)
}
fn character_filters() {
    let (name, args, ok, un) = member(CHAR);
    let v: Value = serde_json::from_str(&args).unwrap();
    let r = CharacterFilterLoader::load_from_value(&name, &v);
    check(un || r.is_ok() == ok, "exactly the well-formed configurations are accepted");
    let c = CharacterFilterLoader::load_from_cli_flag(&format!("{}:{}", name, args));
    check(c.is_ok() == r.is_ok(), "the same from the command line");
    match r { Ok(f) => { cover("accepted"); check(f.name() == name, "the filter of that name"); f.apply("aあ\0々").unwrap(); } _ => cover("rejected") }
}
fn token_filters() {
    let (name, args, ok, un) = member(TOKEN);
    let v: Value = serde_json::from_str(&args).unwrap();
    let r = TokenFilterLoader::load_from_value(&name, &v);
    check(un || r.is_ok() == ok, "exactly the well-formed configurations are accepted");
    let c = TokenFilterLoader::load_from_cli_flag(&format!("{}:{}", name, args));
    check(c.is_ok() == r.is_ok(), "the same from the command line");
    match r { Ok(f) => { cover("accepted"); check(f.name() == name, "the filter of that name"); f.apply(&mut vec![token("aあ", &["UNK"])]).unwrap(); } _ => cover("rejected") }
}
/// tags with any number of parts
fn tags() {
    let t = text_upto(&["a", ","], 7);
    let parts = t.split(',').count();
    let k = choose(4);
    let name = ["japanese_keep_tags", "japanese_stop_tags", "japanese_number", "japanese_compound_word"][k];
    let mut args = serde_json::json!({ "kind": "ipadic", "tags": ["x", t] });
    if k == 3 && flag() { args = serde_json::json!({ "kind": "ipadic", "tags": ["x"], "new_tag": t }); }
    let r = TokenFilterLoader::load_from_value(name, &args);
    check(r.is_ok() == (parts <= 4), "tags have up to four parts");
    cover(if r.is_ok() { "accepted" } else { "rejected" });
}
/// names one character away from a filter's
fn names() {
    let (token, k) = (flag(), choose(17));
    let list = if token { TOKEN } else { CHAR };
    let k = k % list.len();
    let (name, fields) = list[k];
    let args: Value = serde_json::from_str(&format!("{{{}}}", fields.iter().map(|f| format!("\"{}\":{}", f.0, valid(f.1))).collect::<Vec<_>>().join(","))).unwrap();
    let at = choose(name.len() + 1);
    let mut s = String::from(&name[..at]);
    if at < name.len() || flag() { any_char_n(&mut s, 1); }
    if at < name.len() { s.push_str(&name[at + 1..]); }
    let known = list.iter().any(|x| x.0 == s);
    let ok = if token { TokenFilterLoader::load_from_value(&s, &args).is_ok() } else { CharacterFilterLoader::load_from_value(&s, &args).is_ok() };
    check(ok == known, "exactly the known filters are accepted");
    cover(if ok { "accepted" } else { "rejected" });
}
entries! { sx_entry_c18_kinds => kinds; sx_entry_c18_modes => modes; sx_entry_c18_roundtrip => round_trip; sx_entry_c18_members => members; sx_entry_c18_character => character_filters; sx_entry_c18_token => token_filters; sx_entry_c18_tags => tags; sx_entry_c18_names => names; }

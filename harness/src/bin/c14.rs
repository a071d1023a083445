//! C14: keep, stop and length filters select exactly the configured tokens.
use harness::tokens::*;
use harness::*;
use lindera_filter::token_filter::japanese_keep_tags::*;
use lindera_filter::token_filter::japanese_stop_tags::*;
use lindera_filter::token_filter::keep_words::*;
use lindera_filter::token_filter::korean_keep_tags::*;
use lindera_filter::token_filter::korean_stop_tags::*;
use lindera_filter::token_filter::length::*;
use lindera_filter::token_filter::stop_words::*;
use lindera_filter::token_filter::TokenFilter;
use std::collections::HashSet;

/// the filter retains exactly the tokens to be kept, in order, with all of their fields
fn verify(f: &dyn TokenFilter, mut ts: Vec<Token>, keep: &[bool]) {
    let before = all(&ts);
    f.apply(&mut ts).unwrap();
    let want: Vec<&Fields> = before.iter().zip(keep).filter(|x| *x.1).map(|x| x.0).collect();
    if want.len() < before.len() { cover("removed") }
    if !want.is_empty() { cover("retained") }
    check(ts.len() == want.len(), "exactly the configured tokens are selected");
    for (t, w) in ts.iter().zip(&want) { same(&fields(t), w); }
    out(ts.len() as u64);
    for t in &ts { out_str(&t.text); out(t.details.len() as u64); }
}
fn set(ws: &[&str]) -> HashSet<String> { ws.iter().map(|s| s.to_string()).collect() }
fn subset(ws: &[&str]) -> Vec<String> { ws.iter().filter(|_| flag()).map(|s| s.to_string()).collect() }

const WORDS: &[&str] = &["a", "あ", "", "ab", "A", "aあ", "b", "＊"];
/// every set of words, every list of tokens
fn words() {
    let conf = subset(&WORDS[..4]);
    let texts: Vec<String> = (0..3).map(|_| WORDS[pick(WORDS.len())].to_string()).collect();
    select_words(conf, texts);
}
fn select_words(conf: Vec<String>, texts: Vec<String>) {
    let ts = texts.iter().map(|t| token(t, &["a", "b", "c", "d"])).collect();
    let member: Vec<bool> = texts.iter().map(|t| conf.contains(t)).collect();
    let s: HashSet<String> = conf.into_iter().collect();
    if flag() { verify(&KeepWordsTokenFilter::new(KeepWordsTokenFilterConfig::new(s)), ts, &member) }
    else { verify(&StopWordsTokenFilter::new(StopWordsTokenFilterConfig::new(s)), ts, &member.iter().map(|m| !m).collect::<Vec<_>>()) }
}
/// longer words that differ in one place only
fn spelling() {
    let conf = vec!["東京ab".to_string(), "東".to_string(), "ab".to_string()];
    let t = text_upto(&["東", "京", "a", "b", "A", " "], 4);
    select_words(conf, vec![t]);
}
/// a long list of words and tokens
fn many() {
    let n = choose(9);
    let conf: Vec<String> = (0..40).map(|i| format!("w{}", i * 2)).collect();
    let texts: Vec<String> = (0..n).map(|i| format!("w{}", i * 9 + choose(2))).collect();
    select_words(conf, texts);
}
const CHARS: &[&str] = &["a", "é", "あ", "𠮷", "か\u{3099}"];
/// every minimum and maximum
fn length() {
    let bound = |f: bool| if f { Some(var_u64() as usize) } else { None };
    let (min, max) = (bound(flag()), bound(flag()));
    let texts: Vec<String> = (0..2).map(|_| text_upto(CHARS, 2)).collect();
    select_length(min, max, texts);
}
fn select_length(min: Option<usize>, max: Option<usize>, texts: Vec<String>) {
    let ts = texts.iter().map(|t| token(t, &["a"])).collect();
    let keep: Vec<bool> = texts.iter().map(|t| { let n = t.chars().count(); min.map_or(true, |m| m <= n) && max.map_or(true, |m| n <= m) }).collect();
    verify(&LengthTokenFilter::new(LengthTokenFilterConfig::new(min, max)), ts, &keep);
}
fn long() {
    let mut t = String::new();
    for _ in 0..choose(12) * 3 { t.push('語'); }
    t.push_str(&text_upto(CHARS, 2));
    select_length(Some(var_u8() as usize), Some(var_u8() as usize), vec![t]);
}
/// every character counts as one
fn anychar() {
    let mut t = String::from("あ");
    any_char(&mut t);
    let m = var_u8() as usize;
    select_length(Some(m), Some(m), vec![t]);
}
const PARTS: &[&str] = &["名詞", "一般", "*", ""];
const TAGS: &[&str] = &["名詞", "名詞,一般", "名詞,*,一般", "*,一般,*,*", "名詞,一般,一般,一般", "", "UNK"];
/// the first four details, padded
fn padded(d: &[String]) -> String { (0..4).map(|i| d.get(i).map_or("*", |s| s.as_str())).collect::<Vec<_>>().join(",") }
fn pad_tag(t: &str) -> String { let p: Vec<&str> = t.split(',').collect(); (0..4).map(|i| *p.get(i).unwrap_or(&"*")).collect::<Vec<_>>().join(",") }
fn select_japanese(conf: &[&str], ts: Vec<Token>) {
    let tags: Vec<String> = conf.iter().map(|t| pad_tag(t)).collect();
    let member: Vec<bool> = ts.iter().map(|t| tags.contains(&padded(&t.details))).collect();
    if flag() { verify(&JapaneseKeepTagsTokenFilter::new(JapaneseKeepTagsTokenFilterConfig::new(set(conf))), ts, &member) }
    else { verify(&JapaneseStopTagsTokenFilter::new(JapaneseStopTagsTokenFilterConfig::new(set(conf))), ts, &member.iter().map(|m| !m).collect::<Vec<_>>()) }
}
/// every choice of the first four details
fn japanese() {
    let conf: Vec<&str> = (0..3).map(|i| TAGS[i * 2 + choose(2)]).collect();
    let d: Vec<&str> = (0..4).map(|_| PARTS[pick(3)]).chain(["x", "y"]).collect();
    select_japanese(&conf, vec![token("あ", &["UNK"]), token("い", &d), token("う", &["名詞", "一般", "一般", "一般", "*", "*"])]);
}
/// every number of details
fn short() {
    let conf: Vec<&str> = TAGS.iter().filter(|_| flag()).copied().collect();
    let d: Vec<&str> = (0..choose(4)).map(|_| PARTS[pick(4)]).collect();
    select_japanese(&conf, vec![token("あ", &d)]);
}
fn lists() {
    let kinds: &[&[&str]] = &[&["名詞", "一般", "*", "*", "x"], &["動詞", "自立", "*", "*", "x"], &["UNK"], &["名詞", "数", "*", "*"]];
    let n = choose(5);
    let ts = (0..n).map(|i| token(["a", "b", "c", "d", "e"][i], kinds[pick(4)])).collect();
    let conf: Vec<&str> = ["名詞,一般", "名詞", "UNK", "動詞,自立"].into_iter().filter(|_| flag()).collect();
    select_japanese(&conf, ts);
}
const KTAGS: &[&str] = &["NNG", "NNP", "NNG,*", "UNK", ""];
fn korean() {
    let conf: Vec<&str> = KTAGS.iter().filter(|_| flag()).copied().collect();
    let ts: Vec<Token> = (0..3).map(|i| {
        let mut d: Vec<&str> = vec!["NNG", "x", "y"];
        if i > 0 { d.truncate(choose(3)); }
        if !d.is_empty() { d[0] = KTAGS[pick(5)]; }
        token("가", &d)
    }).collect();
    let member: Vec<bool> = ts.iter().map(|t| t.details.first().map_or(false, |d| conf.contains(&d.as_str()))).collect();
    if flag() { verify(&KoreanKeepTagsTokenFilter::new(KoreanKeepTagsTokenFilterConfig::new(set(&conf))), ts, &member) }
    else { verify(&KoreanStopTagsTokenFilter::new(KoreanStopTagsTokenFilterConfig::new(set(&conf))), ts, &member.iter().map(|m| !m).collect::<Vec<_>>()) }
}
fn plain(text: &str, details: &[&str], i: usize) -> Token { Token { text: text.into(), byte_start: i * 3, byte_end: i * 3 + 2, position: i, position_length: 1 + i % 3, word_id: WordId(i as u32, i % 2 == 0), details: details.iter().map(|s| s.to_string()).collect() } }
/// many tokens, many words, long words
fn large() {
    let n = [300, 1000, 3000][choose(3)];
    match choose(4) {
        0 => {
            let conf: HashSet<String> = (0..n).map(|i| format!("w{}", i * 2)).collect();
            let ts: Vec<Token> = (0..500).map(|i| plain(&format!("w{}", i * 13), &["a"], i)).collect();
            let member: Vec<bool> = (0..500).map(|i| i * 13 % 2 == 0 && i * 13 < 2 * n).collect();
            if flag() { verify(&KeepWordsTokenFilter::new(KeepWordsTokenFilterConfig::new(conf)), ts, &member) }
            else { verify(&StopWordsTokenFilter::new(StopWordsTokenFilterConfig::new(conf)), ts, &member.iter().map(|m| !m).collect::<Vec<_>>()) }
        }
        1 => {
            let t = "語".repeat(n) + &text_upto(CHARS, 1);
            select_length(Some(n + choose(2)), Some(n + 1 - choose(2)), vec![t]);
        }
        2 => {
            let ts: Vec<Token> = (0..n).map(|i| plain("x", &[["名詞", "助詞", "動詞"][i % 3], "一般", "*", "*", "z"], i)).collect();
            let member: Vec<bool> = (0..n).map(|i| i % 3 == 1).collect();
            let s = set(&["助詞,一般", "名詞"]);
            if flag() { verify(&JapaneseKeepTagsTokenFilter::new(JapaneseKeepTagsTokenFilterConfig::new(s)), ts, &member) }
            else { verify(&JapaneseStopTagsTokenFilter::new(JapaneseStopTagsTokenFilterConfig::new(s)), ts, &member.iter().map(|m| !m).collect::<Vec<_>>()) }
        }
        _ => {
            let ts: Vec<Token> = (0..n).map(|i| plain("x", &[["NNG", "JKS", "VV"][i % 3], "*"], i)).collect();
            let member: Vec<bool> = (0..n).map(|i| i % 3 == 1).collect();
            let s = set(&["JKS", "NNP"]);
            if flag() { verify(&KoreanKeepTagsTokenFilter::new(KoreanKeepTagsTokenFilterConfig::new(s)), ts, &member) }
            else { verify(&KoreanStopTagsTokenFilter::new(KoreanStopTagsTokenFilterConfig::new(s)), ts, &member.iter().map(|m| !m).collect::<Vec<_>>()) }
        }
    }
}
entries! { sx_entry_c14_words => words; sx_entry_c14_spelling => spelling; sx_entry_c14_many => many; sx_entry_c14_length => length; sx_entry_c14_long => long; sx_entry_c14_anychar => anychar; sx_entry_c14_japanese => japanese; sx_entry_c14_short => short; sx_entry_c14_lists => lists; sx_entry_c14_korean => korean; sx_entry_c14_large => large; }

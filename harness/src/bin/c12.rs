//! C12: mapping filters replace greedily, longest match first.
use harness::tokens::*;
use harness::*;
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::CharacterFilter;
use lindera_filter::token_filter::mapping::*;
use lindera_filter::token_filter::TokenFilter;
use std::collections::HashMap;

fn reference(text: &str, table: &[(&str, &str)]) -> String {
    let mut s = String::new();
    let mut at = 0;
    while at < text.len() {
        let rest = &text[at..];
        let mut best: Option<&(&str, &str)> = None;
        for e in table { if !e.0.is_empty() && rest.starts_with(e.0) && best.map_or(true, |b| e.0.len() > b.0.len()) { best = Some(e); } }
        match best {
            Some(e) => { at += e.0.len(); s.push_str(e.1); cover("replaced"); if e.1.is_empty() { cover("removed") } }
            None => { let c = rest.chars().next().unwrap(); at += c.len_utf8(); s.push(c); cover("copied"); }
        }
    }
    s
}
fn verify(text: &str, table: &[(&str, &str)]) {
    let m: HashMap<String, String> = table.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    let want = reference(text, table);
    if flag() {
        let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
        let (s, _, _) = f.apply(text).unwrap();
        check(s == want, "character filter: longest key first, left to right, the rest copied");
        out_str(&s);
    } else {
        let f = MappingTokenFilter::new(MappingTokenFilterConfig::new(m)).unwrap();
        let mut ts = vec![token(text, &["a"]), token("そ", &[]), token(text, &[])];
        let before = all(&ts);
        f.apply(&mut ts).unwrap();
        check(ts.len() == 3, "the number of tokens stays");
        for (t, b) in ts.iter().zip(&before) { same_but_text(&fields(t), b); }
        check(ts[0].text == want && ts[2].text == want, "token filter: longest key first, left to right, the rest copied");
        check(ts[1].text == reference("そ", table), "every token on its own");
        out_str(&ts[0].text);
    }
}
const KEYS: &[&str] = &["a", "ab", "aba", "b", "あ", "あい", "いa"];
const VALS: &[&str] = &["", "a", "ab", "あい", "z"];
/// any subset of keys that overlap and nest, values that contain keys
fn subsets() {
    let t: Vec<(&str, &str)> = KEYS[..4].iter().filter(|_| flag()).enumerate().map(|(i, k)| (*k, VALS[i])).collect();
    verify(&text_upto(&["a", "b"], 5), &t);
}
fn multibyte() {
    let t: Vec<(&str, &str)> = KEYS[3..].iter().filter(|_| flag()).map(|k| (*k, "x")).collect();
    verify(&text_upto(&["a", "b", "あ", "い"], 3), &t);
}
/// two keys, every pair of values
fn values() {
    let (a, b) = [(0, 1), (1, 2), (4, 5), (5, 6)][choose(4)];
    let t = [(KEYS[a], VALS[choose(5)]), (KEYS[b], VALS[choose(5)])];
    verify(&text_upto(if a < 4 { &["a", "b"] } else { &["a", "あ", "い"] }, 3), &t);
}
/// one more key, between its neighbours
fn third() {
    let t = [("aa", "1"), ("aaaa", "2"), ("aaab", "3")];
    verify(&text(&["a", "b"], 6), &t);
}
fn anychar() {
    let mut t = String::from("あ");
    any_char(&mut t);
    t.push_str("ab");
    verify(&t, &[("a", "x"), ("あい", ""), ("é", "e"), ("𠮷", "吉"), ("ab", "y")]);
}
fn empty() { verify(&text_upto(&["a", "あ"], 2), &[]) }
/// many keys, long keys, nested keys, long texts
fn large() {
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let mut table: Vec<(&str, &str)> = vec![];
    let mut t = String::new();
    match choose(3) {
        0 => { for n in 1..=40 { table.push((leak("a".repeat(n)), leak(format!("<{}>", n)))); } let k = choose(3); for (i, n) in [39, 0, 41, 12, 85].into_iter().enumerate() { t += &"a".repeat(n); t += ["b", "c", "あ"][(k + i) % 3]; } }
        1 => { for n in [3, 90, 700] { table.push((leak("あ".repeat(n)), leak("い".repeat(n / 3)))); } let k = choose(2); for (i, n) in [1, 3, 89, 93, 700, 2, 1500].into_iter().enumerate() { t += &"あ".repeat(n); t += ["b", "c"][(k + i) % 2]; } }
        _ => { for i in 0..300 { table.push((leak(format!("k{:03}", i)), leak(format!("{}", i * 3)))); } for i in 0..300 { t += &format!("k{:03}", i * 7 % 310); if i % 5 == 0 { t += ["k", "z"][i / 5 % 2]; } } }
    }
    verify(&t, &table);
}
entries! { sx_entry_c12_subsets => subsets; sx_entry_c12_multibyte => multibyte; sx_entry_c12_values => values; sx_entry_c12_third => third; sx_entry_c12_anychar => anychar; sx_entry_c12_empty => empty; sx_entry_c12_large => large; }

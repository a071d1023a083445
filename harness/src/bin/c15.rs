//! C15: compounding merges exactly the adjacent tokens with configured tags.
use harness::tokens::*;
use harness::*;
use lindera_dictionary::DictionaryKind;
use lindera_filter::token_filter::japanese_compound_word::*;
use lindera_filter::token_filter::TokenFilter;

const KINDS: &[DictionaryKind] = &[DictionaryKind::IPADIC, DictionaryKind::IPADICNEologd, DictionaryKind::UniDic, DictionaryKind::KoDic, DictionaryKind::CcCedict];
fn pad(parts: &[&str]) -> Vec<String> { (0..4).map(|i| parts.get(i).unwrap_or(&"*").to_string()).collect() }
fn verify(kind: DictionaryKind, tags: &[&str], new_tag: Option<&str>, mut ts: Vec<Token>) {
    let n = if kind == DictionaryKind::UniDic { 17 } else { 9 };
    let config = JapaneseCompoundWordTokenFilterConfig::new(kind, tags.iter().map(|s| s.to_string()).collect(), new_tag.map(|s| s.to_string())).unwrap();
    let mut details = pad(&new_tag.unwrap_or("複合語").split(',').collect::<Vec<_>>());
    details.resize(n, "*".to_string());
    let tags: Vec<Vec<String>> = tags.iter().map(|t| pad(&t.split(',').collect::<Vec<_>>())).collect();
    let member: Vec<bool> = ts.iter().map(|t| tags.contains(&pad(&t.details.iter().map(|s| s.as_str()).collect::<Vec<_>>()))).collect();
    let before = all(&ts);
    JapaneseCompoundWordTokenFilter::new(config).apply(&mut ts).unwrap();
    let (mut i, mut k) = (0, 0);
    while i < before.len() {
        let mut j = i + 1;
        if member[i] { while j < before.len() && member[j] { j += 1; } }
        check(k < ts.len(), "no token disappears");
        let t = fields(&ts[k]);
        if j == i + 1 {
            if member[i] { cover("single") } else { cover("other") }
            same(&t, &before[i]);
        } else {
            cover("merged");
            let run = &before[i..j];
            check(t.0 == run.iter().map(|x| x.0.as_str()).collect::<String>(), "the text is the concatenation");
            check(t.1 == run[0].1 && t.2 == run[j - i - 1].2, "from the start of the first to the end of the last");
            check(t.3 == run[0].3, "the position of the first");
            check(t.4 == run.iter().map(|x| x.4).sum::<usize>(), "the sum of the position lengths");
            check(t.6 == details, "the details are the new tag");
        }
        out_str(&t.0);
        i = j;
        k += 1;
    }
    check(k == ts.len(), "one token per run");
}
const D: &[&[&str]] = &[&["名詞", "数", "*", "*", "x"], &["名詞", "接尾", "助数詞", "*", "x"], &["助詞", "格助詞", "一般", "*", "x"], &["UNK"]];
const TEXTS: &[&str] = &["十", "本", "は", "z", "", "一"];
fn list(n: usize) -> Vec<Token> { (0..n).map(|i| token(TEXTS[i], D[pick(D.len())])).collect() }
/// every pattern of matching and other tokens
fn patterns() {
    let n = choose(7);
    verify(DictionaryKind::IPADIC, &["名詞,数", "名詞,接尾,助数詞"], Some("複合語"), list(n));
}
/// every set of tags, new tag and kind
fn configs() {
    let tags: Vec<&str> = ["名詞,数", "名詞,接尾,助数詞", "助詞", "UNK", "助詞,格助詞,一般,*"].into_iter().filter(|_| flag()).collect();
    let new = [None, Some("複合語"), Some("名詞,複合"), Some("a,b,c,d")][choose(4)];
    verify(KINDS[choose(5)].clone(), &tags, new, list(3));
}
/// every choice of details, any number of them
fn details() {
    let parts = ["名詞", "一般", "*", ""];
    let tags = ["名詞,一般", "名詞"];
    let d: Vec<&str> = (0..choose(6)).map(|_| parts[pick(4)]).collect();
    verify(DictionaryKind::UniDic, &tags, None, vec![token("a", &["名詞", "*", "*", "*"]), token("b", &d), token("c", &["名詞", "一般", "*", "*"])]);
}
/// many tokens, long runs
fn large() {
    let n = [30, 300, 1500][choose(3)];
    let m = [2, 9, 100, 4000][choose(4)];
    let ts = (0..n).map(|i| Token { text: format!("t{}", i), byte_start: i * 4, byte_end: i * 4 + 3, position: i, position_length: 1 + i % 2, word_id: WordId(i as u32, true), details: D[if i % m == m - 1 { 2 } else { i % 2 }].iter().map(|s| s.to_string()).collect() }).collect();
    verify(DictionaryKind::IPADIC, &["名詞,数", "名詞,接尾,助数詞"], None, ts);
}
entries! { sx_entry_c15_patterns => patterns; sx_entry_c15_configs => configs; sx_entry_c15_details => details; sx_entry_c15_large => large; }

//! C11: the analyzer reports offsets into the original text through any filter chain.
use harness::dict::*;
use harness::filters::*;
use harness::model::{Cat, Model, Unk};
use harness::tokens;
use harness::*;
use lindera_analyzer::analyzer::Analyzer;
use lindera_core::mode::Mode;
use lindera_dictionary::DictionaryKind;
use lindera_filter::character_filter::BoxCharacterFilter;
use lindera_filter::token::Token;
use lindera_filter::token_filter::japanese_compound_word::*;
use lindera_filter::token_filter::japanese_kana::*;
use lindera_filter::token_filter::length::*;
use lindera_filter::token_filter::lowercase::*;
use lindera_filter::token_filter::mapping::*;
use lindera_filter::token_filter::stop_words::*;
use lindera_filter::token_filter::BoxTokenFilter;
use lindera_tokenizer::tokenizer::Tokenizer;

fn tokenizer() -> Tokenizer {
    let cats = vec![Cat { name: "DEFAULT", invoke: false, group: true }, Cat { name: "HIRA", invoke: false, group: false }, Cat { name: "ALPHA", invoke: true, group: true }];
    let chars = vec![('あ', vec![1]), ('い', vec![1]), ('う', vec![1]), ('a', vec![2]), ('x', vec![2])];
    let words = vec![w("a", 10, 0, 1), w("あ", 20, 1, 0), w("い", -5, 1, 1), w("いい", 30, 0, 1), w("漢x", -50, 0, 0)];
    let users = vec![w("カ", -500, 0, 0), w("いあ", -200, 1, 0)];
    let unks = vec![Unk { cat: 0, cost: 300, left: 0, right: 0 }, Unk { cat: 1, cost: 200, left: 1, right: 0 }, Unk { cat: 2, cost: 90, left: 0, right: 0 }];
    let m = Model { words, users, cats, chars, unks, nctx: 2, conn: vec![0, -15, 30, 7], mode: Mode::Normal };
    Tokenizer::new(m.dictionary(), m.user(), m.mode.clone())
}
fn token_filter(k: usize) -> BoxTokenFilter {
    match k {
        0 => LowercaseTokenFilter::new().into(),
        1 => JapaneseKanaTokenFilter::new(JapaneseKanaTokenFilterConfig::new(KanaKind::Katakana)).into(),
        2 => StopWordsTokenFilter::new(StopWordsTokenFilterConfig::new(["a", "ア", "い", "あい"].iter().map(|s| s.to_string()).collect())).into(),
        3 => MappingTokenFilter::new(MappingTokenFilterConfig::new([("あ", "Ａa"), ("ア", "い")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())).unwrap().into(),
        4 => LengthTokenFilter::new(LengthTokenFilterConfig::new(Some(2), None)).into(),
        _ => JapaneseCompoundWordTokenFilter::new(JapaneseCompoundWordTokenFilterConfig::new(DictionaryKind::IPADIC, ["UNK", "d2", "d1"].iter().map(|s| s.to_string()).collect(), None).unwrap()).into(),
    }
}
fn verify(text: &str, chain: &[usize], tfs: &[usize]) {
    let t = tokenizer();
    // the filtered text and where its offsets come from
    let mut cfs: Vec<BoxCharacterFilter> = vec![];
    let mut cur = text.to_string();
    let mut maps: Vec<Vec<Option<(usize, usize)>>> = vec![];
    for k in chain {
        let (f, segs) = link(*k, &cur);
        cfs.push(f);
        maps.push(origins(&segs));
        cur = segs.iter().map(|s| s.o.as_str()).collect();
    }
    // the tokens of the filtered text, then the token filters one after the other
    let mut want: Vec<Token> = t.tokenize(&cur).unwrap().iter_mut().map(|x| Token {
        text: x.text.to_string(), byte_start: x.byte_start, byte_end: x.byte_end, position: x.position, position_length: x.position_length, word_id: x.word_id,
        details: x.get_details().unwrap().iter().map(|s| s.to_string()).collect() }).collect();
    for k in tfs { token_filter(*k).apply(&mut want).unwrap(); }
    let a = Analyzer::new(cfs, t, tfs.iter().map(|k| token_filter(*k)).collect());
    let got = a.analyze(text).unwrap();
    check(got.len() == want.len(), "the tokens of the filtered text through the token filters");
    out(got.len() as u64);
    let mut prev = (0, 0);
    for (g, w) in got.iter().zip(&want) {
        let (g, w) = (tokens::fields(g), tokens::fields(w));
        check(g.0 == w.0 && g.3 == w.3 && g.4 == w.4 && g.5 == w.5 && g.6 == w.6, "everything but the offsets as the tokenizer and the token filters made it");
        check(g.1 <= g.2 && g.2 <= text.len(), "offsets are within the original text");
        check(g.1 >= prev.0 && g.2 >= prev.1, "offsets do not decrease");
        prev = (g.1, g.2);
        out(g.1 as u64);
        out(g.2 as u64);
        if chain.is_empty() { cover("no character filter"); check(g.1 == w.1 && g.2 == w.2, "without character filters the tokenizer's offsets"); }
        for (o, c) in [(w.1, g.1), (w.2, g.2)] {
            if let Some(from) = origin(&maps, o) {
                cover("boundary");
                check(from.contains(&c), "a boundary between stretches is that boundary in the original text");
            }
        }
    }
    let again = tokens::all(&a.analyze(text).unwrap());
    check(again == tokens::all(&got), "analyzing again gives the same tokens");
    check(tokens::all(&a.clone().analyze(text).unwrap()) == again, "a clone gives the same tokens");
}
/// the places in the original text an offset of the final text may come from
fn origin(maps: &[Vec<Option<(usize, usize)>>], o: usize) -> Option<Vec<usize>> {
    let Some((last, rest)) = maps.split_last() else { return Some(vec![o]) };
    let (lo, hi) = last[o]?;
    let mut v = origin(rest, lo)?;
    if hi != lo { v.extend(origin(rest, hi)?); }
    Some(v)
}
const ALPHA: &[&str] = &["a", "い", "ｶ", "\u{ff9e}", "々"];
/// up to two character filters
fn pairs() {
    let n = choose(3);
    let chain: Vec<usize> = (0..n).map(|_| choose(7)).collect();
    verify(&text_upto(ALPHA, 3), &chain, &[]);
}
/// three character filters
fn triples() {
    let chain: Vec<usize> = (0..3).map(|_| choose(7)).collect();
    verify(&text_upto(&["a", "い", "ｶ", "々"], 2), &chain, &[]);
}
/// longer texts
fn long() {
    let chain = [[2, 5], [0, 1], [1, 2], [3, 0], [6, 4], [2, 3]][choose(6)];
    verify(&text(&["a", "い", "ｶ"], 5), &chain, &[]);
}
/// token filters in every order
fn order() {
    let (a, b) = (choose(6), choose(6));
    let chain: &[usize] = [&[] as &[usize], &[0], &[6]][choose(3)];
    verify(&text_upto(&["あ", "い", "A", "a"], 3), chain, &[a, b]);
}
/// three token filters
fn order3() {
    let tfs = [choose(5), choose(6), choose(5)];
    verify(&text_upto(&["あ", "い", "A"], 2), &[], &tfs);
}
/// arbitrary characters
fn anychar() {
    let mut t = String::from("い");
    any_char(&mut t);
    t.push_str("aい");
    verify(&t, &[0], &[]);
}
/// many filters, many tokens
fn large() {
    let mut t = String::new();
    if flag() {
        let chain = [&[2usize, 5, 6, 1, 0, 3, 4] as &[usize], &[6, 6, 0, 2, 2, 5], &[3, 0, 3, 1, 3, 4, 3, 6]][choose(3)];
        for _ in 0..4 { t += ALPHA[pick(5)]; }
        t += "いa";
        verify(&t, chain, &[]);
    } else {
        let chain = [&[] as &[usize], &[2], &[6, 5], &[3, 0]][choose(4)];
        for i in 0..1500 { t += ALPHA[i * 7 % 5]; if i % 11 == 0 { t += "漢。x" } }
        verify(&t, chain, [&[] as &[usize], &[5, 1], &[4]][choose(3)]);
    }
}
/// deeper, for the thorough tier
fn deep() {
    let chain: Vec<usize> = (0..3).map(|_| choose(7)).collect();
    verify(&text_upto(&["a", "い", "ｶ", "々"], 4), &chain, &[]);
}
entries! { sx_entry_c11_pairs => pairs; sx_entry_c11_triples => triples; sx_entry_c11_long => long; sx_entry_c11_order => order; sx_entry_c11_order3 => order3; sx_entry_c11_anychar => anychar; sx_entry_c11_large => large; sx_entry_c11_deep => deep; }

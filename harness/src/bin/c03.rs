//! C03: sentences are tokenized independently and repeatably.
use harness::dict::*;
use harness::model::*;
use harness::*;
use lindera_core::mode::Mode;
use lindera_tokenizer::tokenizer::Tokenizer;

type F = (String, usize, usize, usize, usize, u32, bool, Vec<String>);
fn tok(t: &Tokenizer, text: &str) -> Vec<F> { t.tokenize(text).unwrap().iter_mut().map(fields).collect() }
fn sentences(text: &str) -> Vec<&str> {
    let mut v = vec![];
    let mut a = 0;
    for (i, c) in text.char_indices() {
        if c == '\u{3002}' || c == '\u{3001}' || c == '\n' || c == '\t' { v.push(&text[a..i + c.len_utf8()]); a = i + c.len_utf8(); }
    }
    if a < text.len() { v.push(&text[a..]); }
    v
}
fn model(sym: bool) -> Model {
    let cats = vec![Cat { name: "DEFAULT", invoke: false, group: true }, Cat { name: "X", invoke: true, group: true }];
    let chars = vec![('a', vec![1]), ('b', vec![1])];
    let c = |x: i16| if sym { var_i16() } else { x };
    // entries that span a delimiter must never be used
    let words = vec![w("\n", c(3), 0, 1), w("\n\n", -3000, 0, 0), w("あ", c(10), 1, 0), w("あ。", -2000, 1, 1), w("い", c(-20), 0, 1), w("い、あ", -5000, 0, 0), w("。", c(7), 0, 0), w("。あ", -4000, 1, 1)];
    let users = vec![w("\tあ", -9000, 0, 0), w("いあ", c(-30), 1, 1)];
    let unks = vec![Unk { cat: 0, cost: 50, left: 0, right: 1 }, Unk { cat: 1, cost: c(40), left: 1, right: 0 }];
    Model { words, users, cats, chars, unks, nctx: 2, conn: vec![0, c(5), -7, c(11)], mode: if choose(2) == 0 { Mode::Normal } else { penalty(1, 3000, 2, 1700) } }
}
fn concatenation(t: &Tokenizer, text: &str) {
    let whole = tok(t, text);
    let mut k = 0;
    let (mut byte, mut pos) = (0, 0);
    let ss = sentences(text);
    if ss.len() > 1 { cover("several sentences") }
    for s in ss {
        let part = tok(t, s);
        for p in &part {
            check(k < whole.len(), "as many tokens as the sentences have");
            let q = &whole[k];
            check(q.0 == p.0 && q.5 == p.5 && q.6 == p.6 && q.7 == p.7, "same words as in the sentence alone");
            check(q.1 == p.1 + byte && q.2 == p.2 + byte, "byte offsets shifted");
            check(q.3 == p.3 + pos && q.4 == p.4, "positions shifted");
            k += 1;
        }
        byte += s.len();
        pos += part.len();
    }
    check(k == whole.len(), "no more tokens than the sentences have");
    for q in &whole { out(q.2 as u64); out(q.5 as u64); }
}
const D: &[&str] = &["あ", "い", "a", "。", "、", "\n", "\t", "b"];
fn texts() {
    let m = model(false);
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    concatenation(&t, &text(D, 4));
}
fn long() {
    let m = model(false);
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    let mut s = text(D, 2);
    s.push_str("いあ");
    s.push_str(D[pick(8)]);
    s.push_str("a");
    s.push_str(D[pick(8)]);
    concatenation(&t, &s);
}
/// costs symbolic
fn costs() {
    let m = model(true);
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    concatenation(&t, ["いあ。あa、いあ", "あ\nあ\tい", "a。いあb。a\n\n"][choose(3)]);
}
/// what was tokenized before has no influence: a long text, then a shorter one, with the tokenizer, a clone and a fresh one
fn history() {
    let m = model(false);
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    let a = text(&["あ", "い", "a", "。"], 3);
    let first = tok(&t, &a);
    let before = ["いあaabあいいあ。あ", "", "\n", "aaaaaaaa、い"][choose(4)];
    tok(&t, before);
    let c = t.clone();
    check(tok(&t, &a) == first, "same result after other texts");
    check(tok(&c, &a) == first, "same result with a clone");
    tok(&c, before);
    check(tok(&c, &a) == first, "same result with a clone after other texts");
    let f = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    check(tok(&f, &a) == first, "same result with a fresh tokenizer");
    cover("compared");
    for q in &first { out(q.2 as u64); }
}
/// more than 65535 bytes: long sentences between short ones, many sentences
fn large() {
    let m = model(false);
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    let mut s = String::new();
    if flag() {
        let k = choose(3);
        for (i, n) in [300, 1, 0, 11500, 2].into_iter().enumerate() { s += &"いあ".repeat(n); s += D[(k + i * 3) % 8]; s += "。"; }
    } else {
        s = "いaあ。".repeat(6600);
        s += D[choose(3)];
    }
    s += "あい";
    concatenation(&t, &s);
}
/// deeper, for the thorough tier
fn deep() {
    let m = model(false);
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    concatenation(&t, &text(D, 5));
}
entries! { sx_entry_c03_texts => texts; sx_entry_c03_long => long; sx_entry_c03_costs => costs; sx_entry_c03_history => history; sx_entry_c03_large => large; sx_entry_c03_deep => deep; }

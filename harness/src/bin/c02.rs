//! C02: the tokens of a sentence form a minimum-cost path.
use harness::dict::*;
use harness::model::*;
use harness::*;
use lindera_core::mode::Mode;
use lindera_tokenizer::tokenizer::Tokenizer;

fn go(m: &Model, text: &str) {
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    let toks = t.tokenize(text).unwrap();
    let sp = spans(&toks, 0);
    let n = m.verify(text, &sp);
    if n > 3 { cover("several paths") }
    if n > 20 { cover("many paths") }
    for (s, e, k) in sp { out(s as u64); out(e as u64); cover(match k { Kind::Unk => "unknown", Kind::Sys(_) => "system", Kind::User(_) => "user" }); }
}
fn cats() -> (Vec<Cat>, Vec<(char, Vec<usize>)>) {
    (vec![Cat { name: "DEFAULT", invoke: true, group: false }], vec![])
}
fn conn(n: usize) -> Vec<i16> { (0..n * n).map(|_| var_i16()).collect() }
/// all word costs and a full 3x3 matrix symbolic, system words and one unknown entry
fn normal(text: &str) {
    let (cats, chars) = cats();
    let words = vec![w("あ", var_i16(), 1, 2), w("あい", var_i16(), 2, 1), w("い", var_i16(), 0, 1), w("いう", var_i16(), 1, 0), w("う", var_i16(), 2, 2)];
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: var_i16(), left: 1, right: 1 }], nctx: 3, conn: conn(3), mode: Mode::Normal };
    go(&m, text);
}
fn n2() { normal("あい") }
fn n3() { normal("あいう") }
/// four characters, every substring of up to three characters a word
fn n4() {
    let (cats, chars) = cats();
    let mut words = vec![w("あ", var_i16(), 0, 1), w("あい", var_i16(), 1, 0), w("あいう", var_i16(), 0, 0), w("い", var_i16(), 1, 1), w("いう", var_i16(), 0, 1), w("いうえ", var_i16(), 1, 0), w("う", var_i16(), 0, 0), w("うえ", var_i16(), 1, 1), w("え", var_i16(), 0, 1)];
    if flag() { words.remove(3); }
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: 32767, left: 1, right: 1 }], nctx: 2, conn: conn(2), mode: Mode::Normal };
    go(&m, "あいうえ");
}
/// the context ids of the words are symbolic too
fn contexts() {
    let (cats, chars) = cats();
    let c = || pick(2) as u16;
    let words = vec![w("あ", var_i16(), c(), c()), w("あ", var_i16(), c(), c()), w("あい", var_i16(), c(), c()), w("い", var_i16(), c(), c())];
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: 20000, left: 0, right: 0 }], nctx: 2, conn: conn(2), mode: Mode::Normal };
    go(&m, "あい");
}
/// the number of left and right contexts differ: rows and columns of the matrix must not be mixed up
fn rect() {
    let (cats, chars) = cats();
    let words = vec![w("あ", var_i16(), 1, 2), w("い", var_i16(), 0, 1), w("いう", var_i16(), 1, 0), w("う", var_i16(), 1, 2)];
    let (nf, nb) = (3u16, 2u16);
    let c: Vec<i16> = (0..6).map(|_| var_i16()).collect();
    // the model keeps a square matrix
    let mut sq = vec![0i16; 9];
    for f in 0..3 { for b in 0..2 { sq[f * 3 + b] = c[f * 2 + b]; } }
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: 30000, left: 0, right: 0 }], nctx: 3, conn: sq, mode: Mode::Normal };
    let mut d = m.dictionary();
    d.cost_matrix = matrix(nf, nb, &c);
    let text = "あいう";
    let t = Tokenizer::new(d, None, Mode::Normal);
    let toks = t.tokenize(text).unwrap();
    let n = m.verify(text, &spans(&toks, 0));
    if n > 3 { cover("several paths") }
    for t in toks { out(t.byte_end as u64); }
}
/// homographs and a user word competing with system words
fn user() {
    let (cats, chars) = cats();
    let mut words = vec![w("あ", var_i16(), 1, 1), w("あ", var_i16(), 0, 1), w("い", var_i16(), 1, 0), w("い", var_i16(), 1, 1)];
    let mut users = vec![w("あ", var_i16(), 0, 0)];
    // the longest user word may be a system word too
    if flag() { users.push(w("あい", var_i16(), 1, 0)); }
    if flag() { words.insert(2, w("あい", var_i16(), 0, 1)); }
    let m = Model { words, users, cats, chars, unks: vec![Unk { cat: 0, cost: 30000, left: 0, right: 0 }], nctx: 2, conn: conn(2), mode: Mode::Normal };
    go(&m, "あい");
}
/// unknown words only, grouped runs with two entries of one category, costs symbolic
fn unknown() {
    let cats = vec![Cat { name: "DEFAULT", invoke: true, group: flag() }, Cat { name: "X", invoke: flag(), group: flag() }];
    let chars = vec![('う', vec![1]), ('え', vec![1, 0])];
    let words = vec![w("あ", var_i16(), 1, 1), w("いう", var_i16(), 0, 1)];
    let unks = vec![Unk { cat: 0, cost: var_i16(), left: 0, right: 1 }, Unk { cat: 1, cost: var_i16(), left: 1, right: 1 }, Unk { cat: 1, cost: var_i16(), left: 0, right: 0 }];
    let m = Model { words, users: vec![], cats, chars, unks, nctx: 2, conn: conn(2), mode: Mode::Normal };
    go(&m, ["あいう", "いうえ", "うあ", "ううい"][choose(4)]);
}
/// decompose mode: symbolic costs, thresholds and penalties
fn decompose() {
    let (cats, chars) = cats();
    let words = vec![w("あ", var_i16(), 0, 0), w("あ漢", var_i16(), 0, 0), w("あ漢字", var_i16(), 0, 0), w("字", var_i16(), 0, 0), w("漢", var_i16(), 0, 0), w("漢字", var_i16(), 0, 0)];
    let kt = choose(3);
    let ot = kt + choose(2);
    let mode = penalty(kt, var_i16() as i32, ot, var_i16() as i32);
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: 30000, left: 0, right: 0 }], nctx: 1, conn: vec![0], mode };
    go(&m, ["漢字", "あ漢字", "漢字あ"][choose(3)]);
}
/// decompose mode: which words count as kanji, at the borders of the kanji block; system, user and unknown words
fn kanji() {
    let cats = vec![Cat { name: "DEFAULT", invoke: false, group: true }];
    let (a, ab, b) = [("一", "一龯", "龯"), ("一", "一龰", "龰"), ("䷿", "䷿一", "一"), ("ー", "ー一", "一")][choose(4)];
    let long = w(ab, var_i16(), 0, 0);
    let mut words = vec![w(a, var_i16(), 0, 0)];
    let which = choose(2);
    if which == 0 { words.push(long); }
    words.push(w(b, var_i16(), 0, 0));
    words.sort_by(|x, y| x.surface.as_bytes().cmp(y.surface.as_bytes()));
    let users = if which == 1 { vec![long] } else { vec![] };
    let mode = penalty(1, var_i16() as i32, 1 + choose(2), var_i16() as i32);
    let m = Model { words, users, cats, chars: vec![], unks: vec![Unk { cat: 0, cost: var_i16(), left: 0, right: 0 }], nctx: 1, conn: vec![0], mode };
    go(&m, &format!("{}{}", ab, ["", "ん", "一"][choose(3)]));
}
/// decompose mode with the default penalty, connection costs, a user word and unknown words
fn decompose2() {
    let cats = vec![Cat { name: "DEFAULT", invoke: true, group: true }];
    let chars = vec![];
    let words = vec![w("京", var_i16(), 1, 0), w("東", var_i16(), 0, 1), w("東京", var_i16(), 1, 1), w("東京都", var_i16(), 0, 0), w("都", var_i16(), 1, 1)];
    let users = vec![w("京都", var_i16(), 0, 0)];
    let m = Model { words, users, cats, chars, unks: vec![Unk { cat: 0, cost: var_i16(), left: 0, right: 1 }], nctx: 2, conn: conn(2), mode: Mode::Decompose(Default::default()) };
    go(&m, "東京都");
}
/// sentences whose costs add up to more than 32 bits hold
fn large() {
    let cats = vec![Cat { name: "DEFAULT", invoke: true, group: false }, Cat { name: "KNOWN", invoke: false, group: false }];
    let words = vec![w("あい", var_i16(), 0, 0), w("い", var_i16(), 0, 0), w("い", var_i16(), 0, 0)];
    let (c3, c1, c2) = (words[0].cost as i64, words[1].cost as i64, words[2].cost as i64);
    // either sign: 34000 tokens of up to 65535
    let big = [i16::MAX, i16::MIN][choose(2)];
    let m = Model { words, users: vec![], cats, chars: vec![('い', vec![1])], unks: vec![Unk { cat: 0, cost: big, left: 1, right: 1 }], nctx: 2, conn: vec![0, 0, 0, big], mode: Mode::Normal };
    let n = 34000;
    let mut text = "あ".repeat(n);
    text.push('い');
    let t = Tokenizer::new(m.dictionary(), None, Mode::Normal);
    let toks = t.tokenize(&text).unwrap();
    let last = toks[toks.len() - 1].word_id;
    check(!last.is_unknown(), "the last token is a word");
    out(last.0 as u64);
    // the last unknown word and its connection, or none
    let parts = 2 * big as i64 + c1.min(c2);
    if toks.len() == n {
        check(last.0 == 0 && c3 <= parts, "no other path is cheaper");
        cover("one word");
    } else {
        check(toks.len() == n + 1, "the tokens cover the sentence");
        check(parts <= c3 && ((last.0 == 1 && c1 <= c2) || (last.0 == 2 && c2 <= c1)), "no other path is cheaper");
        cover("two words");
    }
}
/// ninety-three candidates end at one character: the cheapest among any of them is found
fn homographs() {
    let (cats, chars) = cats();
    let mut words: Vec<W> = vec![];
    for s in ["ああい", "あい", "い"] { for i in 0..31 { words.push(w(s, 30000, 0, (i % 2) as u16)); } }
    words.push(w("う", 0, 1, 0));
    for i in [0, 46, 62, 92] { words[i].cost = var_i16(); }
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: 100, left: 0, right: 0 }], nctx: 2, conn: conn(2), mode: Mode::Normal };
    go(&m, "ああいう");
}
/// decompose mode: penalties of extreme size
fn penalties() {
    let (cats, chars) = cats();
    let words = vec![w("あ漢字", var_i16(), 0, 0), w("漢", var_i16(), 0, 0), w("漢字", var_i16(), 0, 0), w("漢字漢", var_i16(), 0, 0)];
    let kt = choose(2);
    let p = || [i32::MAX, i32::MIN, 1 << 30, 40000][choose(4)];
    let mode = penalty(kt, p(), kt + choose(2), p());
    let m = Model { words, users: vec![], cats, chars, unks: vec![Unk { cat: 0, cost: 30000, left: 0, right: 0 }], nctx: 1, conn: vec![0], mode };
    go(&m, ["漢字漢", "あ漢字", "漢字あ"][choose(3)]);
}
entries! {
    sx_entry_c02_large => large; sx_entry_c02_penalties => penalties; sx_entry_c02_homographs => homographs;
    sx_entry_c02_n2 => n2; sx_entry_c02_n3 => n3; sx_entry_c02_n4 => n4; sx_entry_c02_contexts => contexts; sx_entry_c02_rect => rect;
    sx_entry_c02_user => user; sx_entry_c02_unknown => unknown; sx_entry_c02_decompose => decompose; sx_entry_c02_decompose2 => decompose2; sx_entry_c02_kanji => kanji;
}

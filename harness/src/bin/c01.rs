//! C01: tokenization is a lossless partition of the text.
use harness::dict::*;
use harness::model::*;
use harness::*;
use lindera_core::mode::Mode;
use lindera_tokenizer::tokenizer::Tokenizer;

const FULL: &[&str] = &["あ", "い", "漢", "。", "\n", "a", "é", "𠮷"];
fn cats() -> (Vec<Cat>, Vec<(char, Vec<usize>)>) {
    (
        vec![Cat { name: "DEFAULT", invoke: false, group: true }, Cat { name: "KANJI", invoke: false, group: false }, Cat { name: "HIRA", invoke: false, group: true }, Cat { name: "ALPHA", invoke: true, group: true }],
        vec![('漢', vec![1]), ('字', vec![1]), ('あ', vec![2]), ('い', vec![2]), ('a', vec![3]), ('é', vec![3, 0])],
    )
}
fn model(mode: Mode, user: bool) -> Model {
    let (cats, chars) = cats();
    let words = vec![w("\n", 10, 0, 1), w("aあ", -50, 1, 1), w("あ", 100, 1, 0), w("あい", -30, 0, 0), w("い。", -300, 0, 0), w("。", 5, 1, 1), w("漢い", 20, 0, 1), w("漢字", -100, 1, 1), w("𠮷", 40, 0, 1)];
    let users = if user { vec![w("a", -500, 0, 0), w("い漢", -200, 1, 0), w("漢漢", -1000, 0, 0)] } else { vec![] };
    let unks = vec![Unk { cat: 0, cost: 300, left: 0, right: 0 }, Unk { cat: 1, cost: 200, left: 1, right: 0 }, Unk { cat: 2, cost: 250, left: 0, right: 1 }, Unk { cat: 3, cost: -20, left: 1, right: 1 }, Unk { cat: 3, cost: 90, left: 0, right: 0 }];
    Model { words, users, cats, chars, unks, nctx: 2, conn: vec![0, -15, 30, 7], mode }
}
fn run(m: &Model, text: &str) {
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    let r = t.tokenize(text);
    check(r.is_ok(), "tokenize returns Ok");
    let mut toks = r.unwrap();
    partition(text, &mut toks);
    out(toks.len() as u64);
    for t in &toks {
        out(t.byte_end as u64);
        cover(match kind(t) { Kind::Unk => "unknown", Kind::Sys(_) => "system", Kind::User(_) => "user" });
    }
    if toks.len() > 2 { cover("several tokens") }
    if text.is_empty() { cover("empty text"); check(toks.is_empty(), "no tokens for the empty text"); }
}
fn normal() { run(&model(Mode::Normal, true), &text_upto(FULL, 4)) }
fn plain() { run(&model(Mode::Normal, false), &text_upto(FULL, 4)) }
fn decompose() { run(&model(penalty(1, 3000, 2, 1700), true), &text_upto(FULL, 4)) }
fn long() { run(&model(Mode::Normal, true), &text(&["あ", "漢", "。", "a"], 6)) }
/// every cost symbolic
fn costs() {
    let mut m = model(if flag() { Mode::Normal } else { penalty(1, 3000, 2, 1700) }, true);
    for x in m.words.iter_mut() { x.cost = var_i16(); }
    for x in m.users.iter_mut() { x.cost = var_i16(); }
    for x in m.unks.iter_mut() { x.cost = var_i16(); }
    for x in m.conn.iter_mut() { *x = var_i16(); }
    let t = ["あい漢い。", "漢字aあ", "漢漢字", "aéい漢"][choose(4)];
    run(&m, t)
}
/// arbitrary characters next to dictionary words
fn anychar() {
    let mut t = String::new();
    match choose(2) {
        0 => { t.push_str("あ"); any_char(&mut t); t.push_str("い"); }
        _ => { t.push_str("漢"); any_char(&mut t); }
    }
    run(&model(Mode::Normal, true), &t)
}
/// texts longer than 65535 bytes: one sentence, many sentences, one unknown word
fn large() {
    let (m, n) = [("漢", 22000), ("漢い。", 7400), ("é", 33000)][choose(3)];
    let mut t = m.repeat(n);
    t.push_str(["", "漢", "あい", "。"][choose(4)]);
    run(&model(Mode::Normal, true), &t)
}
/// deeper, for the thorough tier
fn deep() { let user = flag(); run(&model(if flag() { Mode::Normal } else { penalty(1, 3000, 2, 1700) }, user), &text(FULL, 5)) }
entries! { sx_entry_c01_large => large; sx_entry_c01_anychar => anychar; sx_entry_c01_normal => normal; sx_entry_c01_plain => plain; sx_entry_c01_decompose => decompose; sx_entry_c01_long => long; sx_entry_c01_costs => costs; sx_entry_c01_deep => deep; }

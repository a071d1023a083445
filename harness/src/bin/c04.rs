//! C04: unknown words follow the character-category rules.
use harness::dict::*;
use harness::model::*;
use harness::*;
use lindera_core::mode::Mode;
use lindera_tokenizer::tokenizer::Tokenizer;

fn go(m: &Model, text: &str) {
    let t = Tokenizer::new(m.dictionary(), m.user(), m.mode.clone());
    let mut toks = t.tokenize(text).unwrap();
    partition(text, &mut toks);
    let sp = spans(&toks, 0);
    m.verify(text, &sp);
    for (s, e, k) in sp {
        out(e as u64);
        if k == Kind::Unk { cover("unknown"); if e - s > 4 { cover("grouped") } } else { cover("known") }
    }
}
/// one category per character: every setting of invoke and group, every text, symbolic costs
fn single() { single_in(Mode::Normal, &["あ", "い", "う", "a"], 3) }
fn single_in(mode: Mode, alpha: &[&str], n: usize) {
    let cats = vec![Cat { name: "DEFAULT", invoke: flag(), group: flag() }, Cat { name: "X", invoke: flag(), group: flag() }];
    let chars = vec![('い', vec![1]), ('う', vec![1])];
    let words = vec![w("あ", var_i16(), 0, 0), w("い", var_i16(), 0, 0), w("いあ", var_i16(), 0, 0)];
    let unks = vec![Unk { cat: 0, cost: var_i16(), left: 0, right: 0 }, Unk { cat: 1, cost: var_i16(), left: 0, right: 0 }];
    let m = Model { words, users: vec![], cats, chars, unks, nctx: 1, conn: vec![0], mode };
    go(&m, &text(alpha, n));
}
fn decompose() { single_in(penalty(0, 0, 0, 0), &["あ", "い", "う"], 3) }
/// characters with several categories: ranks must match for a run to continue
fn ranks() {
    let cats = vec![Cat { name: "DEFAULT", invoke: true, group: true }, Cat { name: "X", invoke: flag(), group: flag() }, Cat { name: "Y", invoke: flag(), group: flag() }];
    let chars = vec![('い', vec![1]), ('う', vec![1, 2]), ('え', vec![2, 1]), ('お', vec![2])];
    let words = vec![w("う", var_i16(), 0, 0)];
    let unks = vec![Unk { cat: 0, cost: var_i16(), left: 0, right: 0 }, Unk { cat: 1, cost: var_i16(), left: 0, right: 0 }, Unk { cat: 2, cost: var_i16(), left: 0, right: 0 }];
    let m = Model { words, users: vec![], cats, chars, unks, nctx: 1, conn: vec![0], mode: if flag() { Mode::Normal } else { penalty(0, 0, 0, 0) } };
    go(&m, &text(&["い", "う", "え", "お"], 3));
}
/// long runs are one candidate, whatever follows
fn run() {
    let cats = vec![Cat { name: "DEFAULT", invoke: false, group: false }, Cat { name: "X", invoke: flag(), group: true }];
    let chars = vec![('い', vec![1]), ('う', vec![1])];
    let words = vec![w("あ", var_i16(), 0, 0), w("い", var_i16(), 0, 0)];
    let unks = vec![Unk { cat: 0, cost: 0, left: 0, right: 0 }, Unk { cat: 1, cost: var_i16(), left: 0, right: 0 }, Unk { cat: 1, cost: var_i16(), left: 0, right: 0 }];
    let m = Model { words, users: vec![], cats, chars, unks, nctx: 1, conn: vec![0], mode: Mode::Normal };
    let mut s = text(&["う", "い"], 5);
    s.push_str(["", "あ", "え"][choose(3)]);
    go(&m, &s);
}
/// user words switch off unknown words of a category that is not always invoked, exactly like system words
fn user() {
    let cats = vec![Cat { name: "DEFAULT", invoke: flag(), group: flag() }];
    let words = vec![w("い", var_i16(), 0, 0)];
    let users = vec![w("あ", var_i16(), 0, 0), w("うい", var_i16(), 0, 0)];
    let unks = vec![Unk { cat: 0, cost: var_i16(), left: 0, right: 0 }];
    let m = Model { words, users, cats, chars: vec![], unks, nctx: 1, conn: vec![0], mode: if flag() { Mode::Normal } else { penalty(0, 0, 0, 0) } };
    go(&m, &text(&["あ", "い", "う"], 3));
}
/// an unknown run of any length is one candidate
fn large() {
    let n = [40, 300, 1200, 25000][choose(4)];
    let decompose = n < 1000 && flag();
    let cats = vec![Cat { name: "DEFAULT", invoke: false, group: false }, Cat { name: "X", invoke: flag(), group: true }];
    let words = vec![w("あ", var_i16(), 0, 0)];
    let unks = vec![Unk { cat: 0, cost: 0, left: 0, right: 0 }, Unk { cat: 1, cost: 500, left: 0, right: 0 }];
    let m = Model { words, users: vec![], cats, chars: vec![('い', vec![1]), ('a', vec![1])], unks, nctx: 1, conn: vec![0], mode: if decompose { penalty(0, 0, 0, 0) } else { Mode::Normal } };
    let mut t = "いa".repeat(n / 2);
    let k = choose(3);
    t += ["", "あ", "え"][k];
    let t0 = Tokenizer::new(m.dictionary(), None, m.mode.clone());
    let mut toks = t0.tokenize(&t).unwrap();
    partition(&t, &mut toks);
    check(toks.len() == if k == 0 { 1 } else { 2 } && toks[0].byte_end == n / 2 * 4 && kind(&toks[0]) == Kind::Unk, "the whole run is one unknown word");
    cover("unknown");
    cover("grouped");
    if k == 1 { check(kind(&toks[1]) == Kind::Sys(0), "a word after it"); cover("known") }
    out(toks.len() as u64);
}
/// deeper, for the thorough tier
fn deep() { single_in(Mode::Normal, &["あ", "い", "う", "a"], 4) }
entries! { sx_entry_c04_single => single; sx_entry_c04_decompose => decompose; sx_entry_c04_ranks => ranks; sx_entry_c04_run => run; sx_entry_c04_user => user; sx_entry_c04_large => large; sx_entry_c04_deep => deep; }

//! C05: prefix lookup returns exactly the dictionary words that are prefixes.
use harness::dict::*;
use harness::*;
use lindera_core::prefix_dict::PrefixDict;

const POOL: &[&str] = &["a", "aあ", "ab", "あ", "あい", "あいう", "い", "𠮷", "𠮷い"];
/// a sorted word list: each surface of `pool` 0..=m times, costs and ids symbolic
fn words(pool: &[&'static str], m: usize) -> Vec<W> {
    let mut v = vec![];
    for s in pool {
        for _ in 0..choose(m + 1) { v.push(w(s, var_i16(), var_u16(), var_u16())); }
    }
    v
}
fn verify(d: &PrefixDict<Vec<u8>>, ws: &[W], text: &str, system: bool) {
    let got: Vec<_> = d.prefix(text).collect();
    let mut k = 0;
    // shorter surfaces first; homographs in registration order
    for len in 1..=text.len() {
        if !text.is_char_boundary(len) { continue; }
        for (i, x) in ws.iter().enumerate().filter(|(_, x)| x.surface == &text[..len]) {
            check(k < got.len(), "every word that is a prefix is returned");
            let (l, e) = &got[k];
            check(*l == len, "with the byte length of its surface, shorter ones first");
            check(e.word_id.0 as usize == i && e.word_id.1 == system, "with its word id and its dictionary's mark");
            check(e.word_cost == x.cost && e.left_id == x.left && e.right_id == x.right, "with its cost and ids");
            check(e.left_id() == x.left as u32 && e.right_id() == x.right as u32, "accessors");
            k += 1;
        }
    }
    check(k == got.len(), "nothing else is returned");
    if k > 1 { cover("several prefixes") }
    // exact lookup
    let got = d.find_surface(text);
    let want: Vec<usize> = (0..ws.len()).filter(|i| ws[*i].surface == text).collect();
    check(got.len() == want.len(), "the exact lookup returns all entries of the surface and nothing else");
    for (e, i) in got.iter().zip(&want) {
        let x = &ws[*i];
        check(e.word_id.0 as usize == *i && e.word_id.1 == system && e.word_cost == x.cost && e.left_id == x.left && e.right_id == x.right, "the exact lookup returns the registered entry");
    }
    if !want.is_empty() { cover("exact match") } else { cover("no exact match") }
    out(k as u64);
}
fn sets() {
    let ws = words(&POOL[..6], 1);
    if ws.is_empty() { return; }
    let d = prefix_dict(&ws, true);
    verify(&d, &ws, &text_upto(&["a", "あ", "い", "う"], 3), true);
}
fn wide() {
    let ws = words(&POOL[5..], 1);
    if ws.is_empty() { return; }
    let d = prefix_dict(&ws, false);
    verify(&d, &ws, &text_upto(&["𠮷", "い", "あ", "\0"], 3), false);
}
fn homographs() {
    let ws = words(&["a", "ab", "あ"], 3);
    if ws.is_empty() { return; }
    let system = flag();
    let d = prefix_dict(&ws, system);
    verify(&d, &ws, &text_upto(&["a", "b", "あ"], 2), system);
}
/// up to 31 entries of one surface (five bits hold their number), between other surfaces
fn crowded() {
    let n = choose(31) + 1;
    let mut ws = vec![w("a", var_i16(), var_u16(), var_u16())];
    for i in 0..n { ws.push(w("ab", var_i16(), i as u16, 100 + i as u16)); }
    ws.push(w("あ", var_i16(), var_u16(), var_u16()));
    let system = flag();
    let d = prefix_dict(&ws, system);
    verify(&d, &ws, ["ab", "abc", "あa"][choose(3)], system);
}
/// arbitrary bytes after a dictionary word
fn anychar() {
    let ws: Vec<W> = POOL.iter().map(|s| w(s, var_i16(), 1, 2)).collect();
    let d = prefix_dict(&ws, true);
    let mut t = String::from(["", "あ", "𠮷"][choose(3)]);
    any_char(&mut t);
    t.push_str("い");
    verify(&d, &ws, &t, true);
}
/// the two loading functions agree
fn loaded() {
    let ws = words(&["a", "ab", "あ"], 2);
    if ws.is_empty() { return; }
    let d = prefix_dict(&ws, true);
    let (da, vals): (Vec<u8>, Vec<u8>) = (d.da.0.clone(), d.vals_data.clone());
    let e = PrefixDict::from_static_slice(&da, &vals);
    verify(&e, &ws, &text_upto(&["a", "b", "あ"], 2), true);
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
/// many words that are prefixes of each other, long words, many words
fn large() {
    let mut ws: Vec<W> = vec![];
    let mut text;
    match choose(4) {
        3 => { // as many entries as need more than 16 bits for their numbers
            for i in 0..2200 { for k in 0..31 { ws.push(w(leak(format!("{:04}", i)), (i as i16) - k, k as u16, i as u16)); } }
            text = format!("{:04}", [1, 2113, 2115, 2199][choose(4)]);
        }
        0 => { // every prefix of a text a word
            for i in 1..=60 { ws.push(w(leak("a".repeat(i)), i as i16, 1, 2)); }
            text = "a".repeat([1, 17, 40, 60, 70][choose(5)]);
        }
        1 => { // words of up to 3000 bytes
            for n in [10, 85, 86, 300, 1000] { ws.push(w(leak("あ".repeat(n)), n as i16, 3, 4)); }
            text = "あ".repeat([9, 10, 86, 999, 1000, 1001][choose(6)]);
        }
        _ => { // many words
            for i in 0..3000 { ws.push(w(leak(format!("w{:04}", i)), (i as i16) - 700, i as u16, 3000 - i as u16)); }
            text = format!("w{:04}", [0, 9, 1999, 2047, 2048, 2999, 3000][choose(7)]);
        }
    }
    if flag() { text.push('い'); }
    let d = prefix_dict(&ws, true);
    verify(&d, &ws, &text, true);
}
entries! { sx_entry_c05_sets => sets; sx_entry_c05_wide => wide; sx_entry_c05_homographs => homographs; sx_entry_c05_anychar => anychar; sx_entry_c05_loaded => loaded; sx_entry_c05_crowded => crowded; sx_entry_c05_large => large; }

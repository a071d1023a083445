//! C13: iteration marks expand to the characters they repeat.
use harness::*;
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::CharacterFilter;

const K: char = '々';
const H: char = 'ゝ';
const HV: char = 'ゞ';
const T: char = 'ヽ';
const TV: char = 'ヾ';
// pairs of the rows か, さ, た and は
const PAIRS: &[(char, char)] = &[('か', 'が'), ('き', 'ぎ'), ('く', 'ぐ'), ('け', 'げ'), ('こ', 'ご'), ('さ', 'ざ'), ('し', 'じ'), ('す', 'ず'), ('せ', 'ぜ'), ('そ', 'ぞ'), ('た', 'だ'), ('ち', 'ぢ'), ('つ', 'づ'), ('て', 'で'), ('と', 'ど'), ('は', 'ば'), ('ひ', 'び'), ('ふ', 'ぶ'), ('へ', 'べ'), ('ほ', 'ぼ')];
fn kata(c: char) -> char { char::from_u32(c as u32 + 0x60).unwrap() }
fn is_kata(c: char) -> bool { ('ァ'..='ヺ').contains(&c) }
fn is_hira(c: char) -> bool { ('ぁ'..='ゔ').contains(&c) }
fn unvoiced(c: char) -> char { for (a, b) in PAIRS { if c == *b { return *a; } if c == kata(*b) { return kata(*a); } } c }
fn voiced(c: char) -> char { for (a, b) in PAIRS { if c == *a { return *b; } if c == kata(*a) { return kata(*b); } } c }
fn expand(mark: char, source: char) -> char {
    match mark {
        H if !is_kata(source) => unvoiced(source),
        HV if !is_kata(source) => voiced(source),
        T if !is_hira(source) => unvoiced(source),
        TV if !is_hira(source) => voiced(source),
        _ => source, // kanji marks, and marks of the other kana script, repeat as they are
    }
}
fn go(text: &str, kanji: bool, kana: bool) {
    let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(kanji, kana));
    let (s, _, _) = f.apply(text).unwrap();
    let (a, b): (Vec<char>, Vec<char>) = (text.chars().collect(), s.chars().collect());
    check(a.len() == b.len(), "the number of characters never changes");
    let mark = |c: char| c == K && kanji || (c == H || c == HV || c == T || c == TV) && kana;
    let mut i = 0;
    while i < a.len() {
        if !mark(a[i]) { check(b[i] == a[i], "every other character stays"); i += 1; continue; }
        let mut j = i;
        while j < a.len() && mark(a[j]) { j += 1; }
        let n = j - i;
        if i >= n && !a[i - n..i].iter().any(|c| mark(*c)) {
            for k in i..j { check(b[k] == expand(a[k], a[k - n]), "a run of marks repeats the characters before it"); }
            cover("expanded");
            if n > 1 { cover("several marks") }
        } else { cover("too many marks") }
        i = j;
    }
    out_str(&s);
}
fn flags(text: &str) { let k = choose(4); go(text, k & 1 == 0, k & 2 == 0) }
fn texts() { flags(&text_upto(&["か", "が", "ハ", "漢", "々", "ゝ", "ゞ", "ヾ"], 4)) }
fn long() { go(&text(&["か", "ド", "々", "ゝ", "ヾ"], 6), true, true) }
/// every kana, by every mark
fn kana() {
    let c = (0x3041 + pick(0x56) as u32) + if flag() { 0x60 } else { 0 };
    assume(c != 0x3046 && c != 0x3094 && c != 0x30a6 && c != 0x30f4); // the voiced form of う is outside the rows
    let mut t = String::new();
    t.push(unsafe { char::from_u32_unchecked(c) });
    t.push([K, H, HV, T, TV][choose(5)]);
    go(&t, true, true);
}
/// arbitrary characters before and after a mark
fn anychar() {
    let mut t = String::new();
    if flag() { t.push('は'); }
    any_char(&mut t);
    assume(!t.starts_with('う') && !t.starts_with('ウ') && !t.ends_with('う') && !t.ends_with('ウ'));
    t.push([K, HV, T][choose(3)]);
    go(&t, true, true);
}
/// long runs and long texts
fn large() {
    let mut t = String::new();
    if flag() {
        let n = choose(40) + 1;
        for i in 0..n + choose(2) { t.push(['か', '漢', 'ド', 'が', 'a'][i % 5]); }
        for _ in 0..2 { t.push([K, H, TV][pick(3)]); }
        for i in 2..n { t.push([K, HV][i % 2]); }
        t.push('漢');
    } else {
        for i in 0..3000 { t.push(['か', 'サ', '漢', K, 'ば', HV, T, 'x', 'y', H, K][i % 11]); }
        t.push([K, H, TV][pick(3)]);
    }
    go(&t, true, true);
}
/// deeper, for the thorough tier
fn deep() { flags(&text_upto(&["か", "が", "ハ", "漢", "々", "ゝ", "ゞ", "ヾ"], 6)) }
entries! { sx_entry_c13_texts => texts; sx_entry_c13_long => long; sx_entry_c13_kana => kana; sx_entry_c13_anychar => anychar; sx_entry_c13_large => large; sx_entry_c13_deep => deep; }

//! C17: rewriting token filters change the text as documented and nothing else.
use harness::tokens::*;
use harness::*;
use lindera_dictionary::DictionaryKind;
use lindera_filter::token_filter::japanese_base_form::*;
use lindera_filter::token_filter::japanese_kana::*;
use lindera_filter::token_filter::japanese_katakana_stem::*;
use lindera_filter::token_filter::japanese_reading_form::*;
use lindera_filter::token_filter::korean_reading_form::*;
use lindera_filter::token_filter::lowercase::*;
use lindera_filter::token_filter::uppercase::*;
use lindera_filter::token_filter::TokenFilter;
use std::num::NonZeroUsize;

/// the filter changes the texts as wanted and nothing else
fn verify(f: &dyn TokenFilter, mut ts: Vec<Token>, want: &[String]) {
    let before = all(&ts);
    f.apply(&mut ts).unwrap();
    check(ts.len() == before.len(), "the number of tokens stays");
    for (t, (b, w)) in ts.iter().zip(before.iter().zip(want)) {
        let a = fields(t);
        same_but_text(&a, b);
        check(a.0 == *w, "the text is rewritten as documented");
        if *w == b.0 { cover("left alone") } else { cover("rewritten") }
        out_str(&a.0);
    }
}
const NAMES: [&str; 22] = ["d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20", "d21"];
/// every number of details, every kind of dictionary
fn forms() {
    let kind = [DictionaryKind::IPADIC, DictionaryKind::IPADICNEologd, DictionaryKind::UniDic, DictionaryKind::KoDic, DictionaryKind::CcCedict][choose(5)].clone();
    let which = choose(3);
    let mut ts = vec![token("あ", &["UNK"])];
    let mut want = vec!["あ".to_string()];
    for i in 0..2 {
        let mut d: Vec<&str> = NAMES[..if i == 0 { choose(20) } else { [0, 4, 12][choose(3)] }].to_vec();
        if i == 0 && !d.is_empty() && flag() { let k = pick(d.len()); d[k] = ["*", "UNK", ""][choose(3)]; }
        let at = match (which, &kind) {
            (2, _) => Some(3),
            (w, DictionaryKind::IPADIC | DictionaryKind::IPADICNEologd) => Some(6 + w),
            (0, DictionaryKind::UniDic) => Some(10),
            (1, DictionaryKind::UniDic) => Some(6),
            _ => None,
        };
        let text = ["い", "食べ"][i];
        // unknown words, and words without the detail, are left alone
        let w = at.and_then(|k| d.get(k)).filter(|_| d[0] != "UNK");
        want.push(w.unwrap_or(&text).to_string());
        ts.push(token(text, &d));
    }
    match which {
        0 => verify(&JapaneseBaseFormTokenFilter::new(JapaneseBaseFormTokenFilterConfig::new(kind)), ts, &want),
        1 => verify(&JapaneseReadingFormTokenFilter::new(JapaneseReadingFormTokenFilterConfig::new(kind)), ts, &want),
        _ => verify(&KoreanReadingFormTokenFilter::new(), ts, &want),
    }
}
fn stem_of(t: &str, min: usize) -> String {
    let n = t.chars().count();
    if t.chars().all(|c| ('\u{30a0}'..='\u{30ff}').contains(&c)) && n > min && t.ends_with('ー') { t.chars().take(n - 1).collect() } else { t.to_string() }
}
fn stem(t: String, min: usize) {
    let want = vec![stem_of(&t, min), stem_of("コーヒー", min)];
    verify(&JapaneseKatakanaStemTokenFilter::new(JapaneseKatakanaStemTokenFilterConfig::new(NonZeroUsize::new(min).unwrap())), vec![token(&t, &["a"]), token("コーヒー", &["UNK"])], &want);
}
/// every text of kana and others, every minimum
fn stems() {
    let t = text_upto(&["コ", "ー", "か", "a", "ヿ", "゠", "ｰ", "𛀀"], 4);
    let m = var_u64() as usize;
    assume(m > 0);
    stem(t, m);
}
fn stem_any() {
    let mut t = String::from("コ");
    any_char(&mut t);
    t.push('ー');
    let m = var_u8() as usize;
    assume(m > 0);
    stem(t, m);
}
fn to_hira(c: char) -> char { let u = c as u32; if (0x30a1..=0x30f6).contains(&u) || (0x30fd..=0x30ff).contains(&u) { char::from_u32(u - 0x60).unwrap() } else { c } }
fn to_kata(c: char) -> char { let u = c as u32; if (0x3041..=0x3096).contains(&u) || (0x309d..=0x309f).contains(&u) { char::from_u32(u + 0x60).unwrap() } else { c } }
fn kana(t: String) {
    let ts = vec![token(&t, &["a"]), token("あア漢", &[])];
    if flag() { verify(&JapaneseKanaTokenFilter::new(JapaneseKanaTokenFilterConfig::new(KanaKind::Hiragana)), ts, &[t.chars().map(to_hira).collect(), "ああ漢".into()]) }
    else { verify(&JapaneseKanaTokenFilter::new(JapaneseKanaTokenFilterConfig::new(KanaKind::Katakana)), ts, &[t.chars().map(to_kata).collect(), "アア漢".into()]) }
}
fn kana_texts() { kana(text_upto(&["あ", "ア", "ゔ", "ヷ", "ー", "ヽ", "ｱ", "語", "a", "𠮷"], 3)) }
fn kana_any() { let mut t = String::from("ん"); any_char(&mut t); t.push('ン'); kana(t) }
fn case(t: String) {
    // the lower case of a capital sigma depends on its neighbours
    for c in t.chars() { assume(c != 'Σ'); }
    let ts = vec![token(&t, &["a"]), token("aBÉß", &[])];
    if flag() { verify(&LowercaseTokenFilter::new(), ts, &[t.chars().flat_map(|c| c.to_lowercase()).collect(), "abéß".into()]) }
    else { verify(&UppercaseTokenFilter::new(), ts, &[t.chars().flat_map(|c| c.to_uppercase()).collect(), "ABÉSS".into()]) }
}
fn case_texts() { case(text_upto(&["a", "A", "é", "É", "ß", "ǆ", "Ａ", "ａ", "あ", "𐐀", "1"], 3)) }
fn case_long() { let n = choose(20); case("xY".repeat(n) + &text(&["a", "A", "é", "あ"], 2)) }
fn case_any() { let mut t = String::from("a"); let n = choose(3) + 1; any_char_n(&mut t, n); t.push('Z'); case(t) }
fn case_ascii() { let mut t = String::new(); for _ in 0..3 { any_char_n(&mut t, 1); } case(t) }
/// many and long tokens
fn large() {
    let n = [40, 300, 3000][choose(3)];
    let t = |s: &str, i: usize| Token { text: s.into(), byte_start: i, byte_end: i + 1, position: i, position_length: 1, word_id: WordId(i as u32, true), details: (0..12).map(|k| format!("{}-{}", k, i)).collect() };
    let f: (Box<dyn TokenFilter>, Box<dyn Fn(&str, usize) -> String>) = match choose(7) {
        0 => (Box::new(LowercaseTokenFilter::new()), Box::new(|s, _| s.chars().flat_map(|c| c.to_lowercase()).collect())),
        1 => (Box::new(UppercaseTokenFilter::new()), Box::new(|s, _| s.chars().flat_map(|c| c.to_uppercase()).collect())),
        2 => (Box::new(JapaneseKanaTokenFilter::new(JapaneseKanaTokenFilterConfig::new(KanaKind::Hiragana))), Box::new(|s, _| s.chars().map(to_hira).collect())),
        3 => (Box::new(JapaneseKanaTokenFilter::new(JapaneseKanaTokenFilterConfig::new(KanaKind::Katakana))), Box::new(|s, _| s.chars().map(to_kata).collect())),
        4 => (Box::new(JapaneseKatakanaStemTokenFilter::new(JapaneseKatakanaStemTokenFilterConfig::new(NonZeroUsize::new(3).unwrap()))), Box::new(|s, _| stem_of(s, 3))),
        5 => (Box::new(JapaneseBaseFormTokenFilter::new(JapaneseBaseFormTokenFilterConfig::new(DictionaryKind::IPADIC))), Box::new(|_, i| format!("6-{}", i))),
        _ => (Box::new(JapaneseReadingFormTokenFilter::new(JapaneseReadingFormTokenFilterConfig::new(DictionaryKind::IPADIC))), Box::new(|_, i| format!("7-{}", i))),
    };
    let texts: Vec<String> = if flag() { (0..n).map(|i| ["コーヒー", "aB", "かナ", "カー"][i % 4].to_string()).collect() } else { vec!["アaBか".repeat(n), "コ".repeat(n) + ["ー", "ーー", "a", "コ"][choose(4)]] };
    let want: Vec<String> = texts.iter().enumerate().map(|(i, s)| (f.1)(s, i)).collect();
    verify(&*f.0, texts.iter().enumerate().map(|(i, s)| t(s, i)).collect(), &want);
}
entries! { sx_entry_c17_forms => forms; sx_entry_c17_stems => stems; sx_entry_c17_stemany => stem_any; sx_entry_c17_kana => kana_texts; sx_entry_c17_kanaany => kana_any; sx_entry_c17_case => case_texts; sx_entry_c17_caselong => case_long; sx_entry_c17_caseany => case_any; sx_entry_c17_caseascii => case_ascii; sx_entry_c17_large => large; }

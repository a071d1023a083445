//! C10: each character filter's offset map points back into the original text.
use harness::*;
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::regex::*;
use lindera_filter::character_filter::unicode_normalize::*;
use lindera_filter::character_filter::{correct_offset, CharacterFilter};
use std::collections::HashMap;
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

fn verify(f: &dyn CharacterFilter, text: &str, segs: &[Seg]) {
    let (s, offsets, diffs) = f.apply(text).unwrap();
    check(offsets.len() == diffs.len(), "as many diffs as offsets");
    let n = s.len();
    offsets_point_back(text, segs, &s, &|o| correct_offset(o, &offsets, &diffs, n));
    out_str(&s);
    for o in 0..=n { out(correct_offset(o, &offsets, &diffs, n) as u64); }
}
/// greedy, longest key first
fn segments(text: &str, table: &[(&str, String)]) -> Vec<Seg> {
    let mut v = vec![];
    let mut at = 0;
    while at < text.len() {
        let rest = &text[at..];
        let mut best: Option<&(&str, String)> = None;
        for e in table { if rest.starts_with(e.0) && best.map_or(true, |b| e.0.len() > b.0.len()) { best = Some(e); } }
        match best {
            Some(e) => { at += e.0.len(); v.push(Seg { i: e.0.into(), o: e.1.clone() }); }
            None => { let c = rest.chars().next().unwrap(); at += c.len_utf8(); v.push(Seg { i: c.into(), o: c.into() }); }
        }
    }
    v
}
fn mapped(text: &str, table: &[(&str, String)]) {
    let m: HashMap<String, String> = table.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let f = MappingCharacterFilter::new(MappingCharacterFilterConfig::new(m)).unwrap();
    verify(&f, text, &segments(text, table));
}
const VALUES: &[&str] = &["", "x", "xy", "あ", "いろは", "𠮷xyz"];
/// one key of each width, every value, every text
fn mapping() {
    let a = VALUES[choose(6)].to_string();
    let b = VALUES[choose(6)].to_string();
    mapped(&text_upto(&["a", "い", "c"], 4), &[("a", a), ("い", b)]);
}
/// keys of several characters that overlap
fn nested() {
    let a = VALUES[choose(6)].to_string();
    let b = VALUES[choose(5)].to_string();
    let c = VALUES[choose(3)].to_string();
    mapped(&text_upto(&["a", "い"], 5), &[("a", a), ("aい", b), ("いいa", c)]);
}
/// arbitrary characters around replaced ones
fn anychar() {
    let mut t = String::new();
    if flag() { t.push('a'); }
    any_char(&mut t);
    t.push('い');
    mapped(&t, &[("a", "あx".to_string()), ("い", VALUES[choose(3)].to_string()), ("é", "e".to_string())]);
}
fn regex() {
    // one character and its replacement: the stretches are those of a mapping
    let (p, k): (&str, &[&str]) = [("a", &["a"] as &[&str]), ("い", &["い"]), ("aい|い", &["aい", "い"]), ("[aい]", &["a", "い"])][choose(4)];
    let r = VALUES[choose(6)];
    let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new(p.into(), r.into())).unwrap();
    let t = text_upto(&["a", "い", "c"], 3);
    let table: Vec<(&str, String)> = k.iter().map(|x| (*x, r.to_string())).collect();
    verify(&f, &t, &segments(&t, &table));
}
/// stretches of the text that consist of repetitions
fn runs() {
    let r = VALUES[choose(6)];
    let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new("a+".into(), r.into())).unwrap();
    let t = text_upto(&["a", "い"], 4);
    let mut segs: Vec<Seg> = vec![];
    let mut prev = false;
    for c in t.chars() {
        if c == 'a' {
            if prev { segs.last_mut().unwrap().i.push('a'); } else { segs.push(Seg { i: "a".into(), o: r.into() }); }
        } else { segs.push(Seg { i: c.into(), o: c.into() }); }
        prev = c == 'a';
    }
    verify(&f, &t, &segs);
}
/// replacements that refer to groups
fn groups() {
    let (r, of): (&str, fn(&str) -> String) = [("$1", (|x| x.to_string()) as fn(&str) -> String), ("<${1}>", |x| format!("<{}>", x)), ("$1$1$1", |x| format!("{x}{x}{x}")), ("$$", |_| "$".to_string()), ("$2", |_| String::new())][choose(5)];
    let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new("b([aい])".into(), r.into())).unwrap();
    let t = text_upto(&["a", "い", "b"], 4);
    verify(&f, &t, &segments(&t, &[("ba", of("a")), ("bい", of("い"))]));
}
/// matches of the empty string: insertions
fn insertions() {
    let r = VALUES[choose(6)];
    let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new("a*".into(), r.into())).unwrap();
    let t = text_upto(&["a", "い"], 3);
    // a match before every other character and at the end, unless a run of a's ended there
    let mut segs: Vec<Seg> = vec![];
    let mut at = 0;
    let cs: Vec<char> = t.chars().collect();
    let mut ended = false;
    loop {
        let s = at;
        while at < cs.len() && cs[at] == 'a' { at += 1; }
        if at > s { segs.push(Seg { i: "a".repeat(at - s), o: r.into() }); ended = true; }
        else if !ended { segs.push(Seg { i: String::new(), o: r.into() }); }
        if at == cs.len() { break; }
        segs.push(Seg { i: cs[at].into(), o: cs[at].into() });
        at += 1;
        ended = false;
    }
    verify(&f, &t, &segs);
}
fn normalized(alpha: &[&str], n: usize) {
    use UnicodeNormalizeKind::*;
    let kind = [NFC, NFD, NFKC, NFKD][choose(4)].clone();
    let t = text_upto(alpha, n);
    let f = UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(kind.clone()));
    let segs: Vec<Seg> = t.graphemes(true).map(|g| Seg { i: g.into(), o: match kind { NFC => g.nfc().collect(), NFD => g.nfd().collect(), NFKC => g.nfkc().collect(), NFKD => g.nfkd().collect() } }).collect();
    verify(&f, &t, &segs);
}
fn normalize() { normalized(&["a", "Ａ", "ｶ", "\u{ff9e}", "が", "か", "\u{3099}", "㍿"], 3) }
fn normalize2() { normalized(&["e", "\u{301}", "é", "ﬃ", "한", "㌔", "𠮷", "\r", "\n"], 3) }
fn marks() {
    let t = text_upto(&["a", "漢", "𠮷", "々", "か", "ゞ"], 4);
    let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, true));
    let (o, _, _) = f.apply(&t).unwrap();
    check(o.chars().count() == t.chars().count(), "the number of characters stays");
    let segs: Vec<Seg> = t.chars().zip(o.chars()).map(|(a, b)| Seg { i: a.into(), o: b.into() }).collect();
    verify(&f, &t, &segs);
}
/// long keys, long replacements, long texts
fn large() {
    let (k, n) = (["a", "い", "aい"][choose(3)], [1, 17, 300][choose(3)]);
    let r = [String::new(), "x".repeat(260), "あy".repeat(70)][choose(3)].clone();
    let key: &'static str = Box::leak(k.repeat(n).into_boxed_str());
    let mut t = String::new();
    for i in 0..4 { t += ["a", "c", "い", ""][i]; t += key; t += ["", "い", "c"][pick(3)]; }
    mapped(&t, &[(key, r)]);
}
/// texts of more than 65535 bytes
fn long() {
    let n = 9000;
    match choose(4) {
        0 => mapped(&"いac".repeat(14000), &[("a", "xy".to_string()), ("い", "い".to_string())]),
        1 => { let f = RegexCharacterFilter::new(RegexCharacterFilterConfig::new("a+".into(), "".into())).unwrap(); let t = "aaいい".repeat(n); let segs = (0..n).flat_map(|_| [Seg { i: "aa".into(), o: "".into() }, Seg { i: "いい".into(), o: "いい".into() }]).collect::<Vec<_>>(); verify(&f, &t, &segs) }
        2 => { let f = UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(UnicodeNormalizeKind::NFKC)); let t = "Ａ㍿".repeat(n + 2000); let segs = (0..n + 2000).flat_map(|_| [Seg { i: "Ａ".into(), o: "A".into() }, Seg { i: "㍿".into(), o: "株式会社".into() }]).collect::<Vec<_>>(); verify(&f, &t, &segs) }
        _ => { let f = JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, true)); let t = "a々𠮷々".repeat(n); let segs = (0..n).flat_map(|_| [("a", "a"), ("々", "a"), ("𠮷", "𠮷"), ("々", "𠮷")]).map(|(i, o)| Seg { i: i.into(), o: o.into() }).collect::<Vec<_>>(); verify(&f, &t, &segs) }
    }
}
/// clusters of many marks, characters with long forms
fn clusters() {
    use UnicodeNormalizeKind::*;
    let kind = [NFC, NFD, NFKC, NFKD][choose(4)].clone();
    let mut t = String::new();
    for _ in 0..3 { t += ["a", "\u{fdfa}", "가\u{11a8}", "が"][pick(4)]; t += &"\u{301}\u{323}".repeat([0, 1, 20][choose(3)]); }
    let f = UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(kind.clone()));
    let segs: Vec<Seg> = t.graphemes(true).map(|g| Seg { i: g.into(), o: match kind { NFC => g.nfc().collect(), NFD => g.nfd().collect(), NFKC => g.nfkc().collect(), NFKD => g.nfkd().collect() } }).collect();
    verify(&f, &t, &segs);
}
/// deeper, for the thorough tier
fn deep() {
    if flag() { normalized(&["a", "Ａ", "ｶ", "\u{ff9e}", "が", "か", "\u{3099}", "㍿"], 4) }
    else { let (a, b) = (VALUES[choose(6)].to_string(), VALUES[choose(6)].to_string()); mapped(&text_upto(&["a", "い", "c"], 6), &[("a", a), ("い", b)]) }
}
entries! {
    sx_entry_c10_mapping => mapping; sx_entry_c10_nested => nested; sx_entry_c10_anychar => anychar; sx_entry_c10_regex => regex; sx_entry_c10_runs => runs;
    sx_entry_c10_groups => groups; sx_entry_c10_insertions => insertions; sx_entry_c10_normalize => normalize; sx_entry_c10_normalize2 => normalize2; sx_entry_c10_marks => marks; sx_entry_c10_large => large; sx_entry_c10_long => long; sx_entry_c10_clusters => clusters; sx_entry_c10_deep => deep; }

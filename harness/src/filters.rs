//! Character filters and the stretches they are expected to split a text into.
use crate::*;
use lindera_filter::character_filter::japanese_iteration_mark::*;
use lindera_filter::character_filter::mapping::*;
use lindera_filter::character_filter::regex::*;
use lindera_filter::character_filter::unicode_normalize::*;
use lindera_filter::character_filter::{BoxCharacterFilter, CharacterFilter};
use unicode_normalization::UnicodeNormalization;
use unicode_segmentation::UnicodeSegmentation;

/// greedy, longest key first
pub fn segments(text: &str, table: &[(&str, String)]) -> Vec<Seg> {
    let mut v = vec![];
    let mut at = 0;
    while at < text.len() {
        let rest = &text[at..];
        let mut best: Option<&(&str, String)> = None;
        for e in table { if rest.starts_with(e.0) && best.map_or(true, |b| e.0.len() > b.0.len()) { best = Some(e); } }
        match best {
            Some(e) => { at += e.0.len(); v.push(Seg { i: e.0.into(), o: e.1.clone() }); }
            None => { let c = rest.chars().next().unwrap(); at += c.len_utf8(); v.push(Seg { i: c.into(), o: c.into() }); }
        }
    }
    v
}
/// maximal runs of one character
pub fn runs(text: &str, c: char, r: &str) -> Vec<Seg> {
    let mut segs: Vec<Seg> = vec![];
    let mut prev = false;
    for x in text.chars() {
        if x == c && prev { segs.last_mut().unwrap().i.push(c); }
        else if x == c { segs.push(Seg { i: c.into(), o: r.into() }); }
        else { segs.push(Seg { i: x.into(), o: x.into() }); }
        prev = x == c;
    }
    segs
}
pub fn normal_form(t: &str, kind: &UnicodeNormalizeKind) -> Vec<Seg> {
    use UnicodeNormalizeKind::*;
    t.graphemes(true).map(|g| Seg { i: g.into(), o: match kind { NFC => g.nfc().collect(), NFD => g.nfd().collect(), NFKC => g.nfkc().collect(), NFKD => g.nfkd().collect() } }).collect()
}
/// the output of the iteration mark filter, character by character
pub fn marked(t: &str, f: &JapaneseIterationMarkCharacterFilter) -> Vec<Seg> {
    let (o, _, _) = f.apply(t).unwrap();
    check(o.chars().count() == t.chars().count(), "the number of characters stays");
    t.chars().zip(o.chars()).map(|(a, b)| Seg { i: a.into(), o: b.into() }).collect()
}
pub fn mapping(table: &[(&str, String)]) -> MappingCharacterFilter { MappingCharacterFilter::new(MappingCharacterFilterConfig::new(table.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())).unwrap() }
pub fn regex(p: &str, r: &str) -> RegexCharacterFilter { RegexCharacterFilter::new(RegexCharacterFilterConfig::new(p.into(), r.into())).unwrap() }
pub fn normalize(k: &UnicodeNormalizeKind) -> UnicodeNormalizeCharacterFilter { UnicodeNormalizeCharacterFilter::new(UnicodeNormalizeCharacterFilterConfig::new(k.clone())) }
pub fn marks() -> JapaneseIterationMarkCharacterFilter { JapaneseIterationMarkCharacterFilter::new(JapaneseIterationMarkCharacterFilterConfig::new(true, true)) }

/// a filter and the stretches of the text
pub fn link(k: usize, text: &str) -> (BoxCharacterFilter, Vec<Seg>) {
    let t = |x: &[(&'static str, &str)]| x.iter().map(|(a, b)| (*a, b.to_string())).collect::<Vec<_>>();
    match k {
        0 => { let m = t(&[("a", ""), ("い", "xい")]); (mapping(&m).into(), segments(text, &m)) }
        1 => (regex("い+", "a").into(), runs(text, 'い', "a")),
        2 => { let m = t(&[("ｶ", "カカ"), ("xい", "a"), ("a", "漢xx")]); (mapping(&m).into(), segments(text, &m)) }
        3 => (normalize(&UnicodeNormalizeKind::NFKC).into(), normal_form(text, &UnicodeNormalizeKind::NFKC)),
        4 => { let f = marks(); let s = marked(text, &f); (f.into(), s) }
        5 => (regex("x", "").into(), segments(text, &t(&[("x", "")]))),
        _ => (regex("[a々]", "あいう").into(), segments(text, &t(&[("a", "あいう"), ("々", "あいう")]))),
    }
}
/// for every offset of the output: where it may come from, if it is a boundary between stretches
pub fn origins(segs: &[Seg]) -> Vec<Option<(usize, usize)>> {
    let n: usize = segs.iter().map(|s| s.o.len()).sum();
    let mut v = vec![None; n + 1];
    let (mut o, mut lo, mut k) = (0, 0, 0);
    loop {
        let mut hi = lo;
        while k < segs.len() && segs[k].o.is_empty() { hi += segs[k].i.len(); k += 1; }
        v[o] = Some((lo, hi));
        if k == segs.len() { return v; }
        o += segs[k].o.len();
        lo = hi + segs[k].i.len();
        k += 1;
    }
}

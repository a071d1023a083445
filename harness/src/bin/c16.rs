//! C16: Japanese numerals are converted to the number they denote.
use harness::tokens::*;
use harness::*;
use lindera_filter::token_filter::japanese_number::*;
use lindera_filter::token_filter::TokenFilter;

const DIGITS: &[&[&str]] = &[
    &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"],
    &["０", "１", "２", "３", "４", "５", "６", "７", "８", "９"],
    &["〇", "一", "二", "三", "四", "五", "六", "七", "八", "九"],
    &["零", "壱", "弐", "参", "四", "五", "六", "七", "八", "九"],
];
const UNITS: &[(&str, u32)] = &[("", 0), ("万", 4), ("億", 8), ("兆", 12), ("京", 16), ("垓", 20)];

fn convert(text: &str) -> String {
    let mut ts = vec![token(text, &["名詞", "数", "*", "*", "x"])];
    let before = all(&ts);
    JapaneseNumberTokenFilter::new(JapaneseNumberTokenFilterConfig::new(None)).apply(&mut ts).unwrap();
    check(ts.len() == 1, "the number of tokens stays");
    same_but_text(&fields(&ts[0]), &before[0]);
    out_str(&ts[0].text);
    ts[0].text.clone()
}
/// text and decimal digits of its value (ones first, none above the first significant one)
#[derive(Clone)]
struct N(String, Vec<u8>);
impl N {
    fn new() -> N { N(String::new(), vec![]) }
    /// append text that adds d times ten to the p
    fn push(&mut self, t: &str, d: u8, p: usize) {
        self.0.push_str(t);
        while self.1.len() <= p { self.1.push(0); }
        self.1[p] += d;
    }
    /// append a group for a unit
    fn add(&mut self, g: &N, u: usize) {
        for (i, d) in g.1.iter().enumerate() { self.push("", *d, i + UNITS[u].1 as usize); }
        self.0 += &g.0;
        self.0 += UNITS[u].0;
    }
    fn decimal(&self) -> String { self.1.iter().rev().map(|d| (b'0' + d) as char).collect() }
}
/// a digit from lo to 9: its glyph and value
fn digit(style: usize, lo: usize) -> (&'static str, u8) {
    let d = pick(10 - lo) + lo;
    (DIGITS[style][d], d as u8)
}
/// digits in a row, the first ones any
fn positional(style: usize, len: usize, free: usize) -> N {
    let mut n = N::new();
    for i in 0..len {
        let (g, d) = if i < free { digit(style, if i == 0 { 1 } else { 0 }) } else { (DIGITS[style][(i * 3) % 10], (i * 3 % 10) as u8) };
        n.push(g, d, len - 1 - i);
    }
    n
}
/// thousands, hundreds, tens and ones: 0 absent, 1 without digit, 2 with digit (the first ones any)
fn small(style: usize, shape: &[usize; 4], mut free: usize) -> N {
    let mut n = N::new();
    for (i, k) in ["千", "百", "十", ""].iter().enumerate() {
        let (g, d) = match shape[i] { 0 => continue, 1 => ("", 1), _ if free > 0 => { free -= 1; digit(style, 1) } _ => (DIGITS[style][i + 4], i as u8 + 4) };
        n.push(g, d, 3 - i);
        n.0 += k;
    }
    n
}
/// every numeral below ten thousand
fn below() {
    let shape = [choose(3), choose(3), choose(3), choose(2) * 2];
    assume(shape != [0; 4]);
    let n = small(choose(4), &shape, 4);
    cover("converted");
    check(convert(&n.0) == n.decimal(), "the decimal digits of the number");
}
/// the old form of ten
fn daiji() {
    let shape = [choose(3), choose(3), choose(2) + 1, choose(2) * 2];
    let n = small(3, &shape, 4);
    cover("converted");
    check(convert(&n.0.replace("十", "拾")) == n.decimal(), "the decimal digits of the number");
}
/// digits in a row are kept
fn digits() {
    let n = choose(7) + 1;
    let (mut t, mut w) = (String::new(), String::new());
    for _ in 0..n {
        let d = pick(10);
        t.push_str(DIGITS[choose(2) + 2][d]);
        w.push_str(DIGITS[0][d]);
        if w.len() >= 3 { break; }
    }
    for _ in w.len()..n { t.push_str("7"); w.push_str("7"); }
    cover("converted");
    check(convert(&t) == w, "the decimal digits of the number");
}
/// one group of digits for a unit
fn group(shape: usize, free: usize) -> N {
    match shape {
        0 => positional(2, 1, free),
        1 => small(2, &[0, 0, 1, 2], free),
        2 => small(2, &[2, 0, 1, 0], free),
        3 => positional(0, 4, free),
        4 => small(0, &[1, 2, 0, 0], free),
        5 => positional(1, 2, free),
        6 => small(2, &[0, 1, 2, 2], free),
        _ => { let mut n = N::new(); n.push("", 1, 0); n } // the unit alone
    }
}
/// groups for any two units, the unit alone only in front
fn units() { unit_pairs(1) }
fn units2() { unit_pairs(2) }
fn unit_pairs(free: usize) {
    let hi = choose(5) + 1;
    let lo = choose(hi);
    let mut n = N::new();
    n.add(&group(choose(8), free), hi);
    let low = choose(8);
    if low < 7 { n.add(&group(low, free), lo); }
    cover("converted");
    check(convert(&n.0) == n.decimal(), "the decimal digits of the number");
}
/// any of the units, all groups present or not
fn all_units() {
    let g = group([0, 1, 5, 6][choose(4)], 2);
    let mut n = N::new();
    for u in (0..UNITS.len()).rev() { if flag() { n.add(&g, u); } }
    assume(!n.1.is_empty());
    cover("converted");
    check(convert(&n.0) == n.decimal(), "the decimal digits of the number");
}
fn shape(k: usize, free: usize) -> N {
    match k {
        0 => positional(2, 1, free),
        1 => small(2, &[0, 0, 1, 0], free),
        2 => small(2, &[0, 1, 0, 2], free),
        3 => { let mut n = N::new(); n.add(&small(2, &[0, 2, 0, 0], free), 1); n }
        4 => positional(0, 3, free),
        5 => { let mut n = N::new(); n.add(&group(7, 0), 2); n.add(&small(2, &[1, 0, 0, 0], free), 0); n }
        _ => small(1, &[1, 0, 2, 2], free),
    }
}
/// numerals among other text
fn mixed() { among(1, 3) }
fn mixed2() { among(2, 4) }
fn among(free: usize, n: usize) {
    let other = ["", "第", "回目", "a"];
    let (a, b, c) = (other[choose(n)], other[choose(n - 1) + 1], other[choose(n)]);
    let (m, k) = (shape(choose(7), free), shape(choose(7), free));
    let text = format!("{}{}{}{}{}", a, m.0, b, k.0, c);
    cover("converted");
    check(convert(&text) == format!("{}{}{}{}{}", a, m.decimal(), b, k.decimal(), c), "the numbers among the other text");
}
const ANY: &[&str] = &["1", "九", "〇", "十", "百", "千", "万", "億", "垓", "回", "a"];
/// no text panics, everything else is copied
fn texts() { copied(&text_upto(ANY, 4)) }
fn long() { copied(&text(&["5", "百", "万", "億", "店"], 6)) }
fn copied(t: &str) {
    let c = convert(t);
    let num = |x: &char| !"0123456789０１２３４５６７８９〇一二三四五六七八九零壱弐参十拾百千万億兆京垓".contains(*x);
    let rest: String = t.chars().filter(num).collect();
    cover("converted");
    check(c.chars().filter(|x| !x.is_ascii_digit()).collect::<String>() == rest, "other text is copied");
}
/// every character other than a numeral
fn anychar() {
    let mut t = String::from("十");
    any_char(&mut t);
    let c = t.chars().nth(1).unwrap();
    for x in "０１２３４５６７８９〇一二三四五六七八九零壱弐参十拾百千万億兆京垓".chars() { assume(c != x); }
    assume(c > '9' || c < '0');
    t.push_str("二百");
    let mut w = String::from("10");
    w.push(c);
    w.push_str("200");
    cover("converted");
    check(convert(&t) == w, "any other character is copied");
}
/// only tokens with a configured tag
fn tags() {
    let all_tags = ["名詞,数", "名詞", "UNK", "接頭詞,数接続,*,*"];
    let conf: Vec<&str> = all_tags.iter().filter(|_| flag()).copied().collect();
    let parts = ["名詞", "数", "*"];
    let d: Vec<&str> = (0..choose(6)).map(|_| parts[pick(3)]).collect();
    let mut ts = vec![token("十二", &d), token("第三", &["接頭詞", "数接続", "*", "*", "*"]), token("四", &["UNK"])];
    let pad = |d: &[&str]| (0..4).map(|i| d.get(i).unwrap_or(&"*").to_string()).collect::<Vec<_>>();
    let conf2: Vec<Vec<String>> = conf.iter().map(|t| pad(&t.split(',').collect::<Vec<_>>())).collect();
    let before = all(&ts);
    JapaneseNumberTokenFilter::new(JapaneseNumberTokenFilterConfig::new(Some(conf.iter().map(|s| s.to_string()).collect()))).apply(&mut ts).unwrap();
    check(ts.len() == 3, "the number of tokens stays");
    for (i, t) in ts.iter().enumerate() {
        let member = conf2.contains(&pad(&t.details.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
        let f = fields(t);
        if member { cover("converted"); check(f.0 == ["12", "第3", "4"][i], "tokens with the tag are converted"); } else { cover("left alone"); check(f.0 == before[i].0, "other tokens are left alone"); }
        same_but_text(&f, &before[i]);
    }
}
/// numbers of many digits, many numbers
fn large() {
    if flag() {
        let n = positional(choose(4), [8, 19, 20, 21, 39, 64, 300][choose(7)], 2);
        cover("converted");
        check(convert(&n.0) == n.decimal(), "the decimal digits of the number");
    } else {
        let (mut t, mut want) = (String::new(), String::new());
        for i in 0..400 {
            let a = small(2, &[i % 3, i / 3 % 3, i / 9 % 3, 2], 0);
            t += &a.0; want += &a.decimal();
            t += "円a"; want += "円a";
        }
        let (g, d) = digit(2, 1);
        t += g; want.push((b'0' + d) as char);
        cover("converted");
        check(convert(&t) == want, "every numeral on its own, the rest copied");
    }
}
entries! { sx_entry_c16_below => below; sx_entry_c16_daiji => daiji; sx_entry_c16_digits => digits; sx_entry_c16_units => units; sx_entry_c16_units2 => units2; sx_entry_c16_mixed2 => mixed2; sx_entry_c16_allunits => all_units; sx_entry_c16_mixed => mixed; sx_entry_c16_texts => texts; sx_entry_c16_long => long; sx_entry_c16_anychar => anychar; sx_entry_c16_tags => tags; sx_entry_c16_large => large; }

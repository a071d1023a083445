//! Reference lattice: the candidates of a sentence and the cost of every way to cover it.
use crate::dict::*;
use crate::*;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::mode::{Mode, Penalty};
use lindera_tokenizer::token::Token;
use std::borrow::Cow;

#[derive(Clone, Copy)]
pub struct Cat { pub name: &'static str, pub invoke: bool, pub group: bool }
#[derive(Clone, Copy)]
pub struct Unk { pub cat: usize, pub cost: i16, pub left: u16, pub right: u16 }
pub struct Model {
    pub words: Vec<W>,
    pub users: Vec<W>,
    pub cats: Vec<Cat>,
    /// categories of each character of the alphabet (in rank order)
    pub chars: Vec<(char, Vec<usize>)>,
    pub unks: Vec<Unk>,
    pub nctx: u16,
    pub conn: Vec<i16>, // right context of the left word * nctx + left context of the right word
    pub mode: Mode,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Sys(usize), User(usize), Unk }
#[derive(Clone, Copy)]
pub struct Edge { pub s: usize, pub e: usize, pub kind: Kind, pub cost: i32, pub left: u16, pub right: u16 }

impl Model {
    pub fn dictionary(&self) -> Dictionary {
        let mut cd = String::new();
        for c in &self.cats { cd += &format!("{} {} {} 0\n", c.name, c.invoke as u8, c.group as u8); }
        for (c, cats) in &self.chars {
            if cats.len() == 1 && cats[0] == 0 { continue; } // DEFAULT
            cd += &format!("0x{:04X}", *c as u32);
            for k in cats { cd += " "; cd += self.cats[*k].name; }
            cd += "\n";
        }
        let mut chars = chardef(&cd);
        // flags may be symbolic: set them on the parsed table
        for (d, c) in chars.category_definitions.iter_mut().zip(&self.cats) { d.invoke = c.invoke; d.group = c.group; }
        let us: Vec<U> = self.unks.iter().map(|u| U { category: self.cats[u.cat].name, cost: u.cost, left: u.left, right: u.right }).collect();
        let ud = unk(&chars, &us);
        let (idx, data) = details(self.words.len());
        Dictionary { dict: prefix_dict(&self.words, true), cost_matrix: matrix(self.nctx, self.nctx, &self.conn), char_definitions: chars, unknown_dictionary: ud, words_idx_data: Cow::Owned(idx), words_data: Cow::Owned(data) }
    }
    pub fn user(&self) -> Option<UserDictionary> { if self.users.is_empty() { None } else { Some(user_dictionary(&self.users)) } }
    fn cats_of(&self, c: char) -> &[usize] {
        for (x, k) in &self.chars { if *x == c { return k; } }
        &[0]
    }
    fn conn(&self, right_of_left: u16, left_of_right: u16) -> i64 { self.conn[right_of_left as usize * self.nctx as usize + left_of_right as usize] as i64 }
    fn search(&self) -> bool { matches!(self.mode, Mode::Decompose(_)) }
    fn penalty(&self, s: &str) -> i64 {
        let Mode::Decompose(p) = &self.mode else { return 0 };
        let n = s.chars().count();
        let kanji = s.chars().all(|c| ('\u{4e00}'..='\u{9faf}').contains(&c));
        let (t, k) = if kanji { (p.kanji_penalty_length_threshold, p.kanji_penalty_length_penalty) } else { (p.other_penalty_length_threshold, p.other_penalty_length_penalty) };
        if n > t { (n - t) as i64 * k as i64 } else { 0 }
    }
    /// candidates at every reachable position
    pub fn edges(&self, text: &str) -> Vec<Edge> {
        let mut es: Vec<Edge> = vec![];
        let (mut lo, mut hi) = (0, 0); // ends of the last unknown stretch: shortest and longest candidate
        for (s, c) in text.char_indices() {
            if s != 0 && !es.iter().any(|e| e.e == s) { continue; }
            let rest = &text[s..];
            let mut found = false;
            for (i, w) in self.users.iter().enumerate() {
                if rest.starts_with(w.surface) { es.push(Edge { s, e: s + w.surface.len(), kind: Kind::User(i), cost: w.cost as i32, left: w.left, right: w.right }); found = true; }
            }
            for (i, w) in self.words.iter().enumerate() {
                if rest.starts_with(w.surface) { es.push(Edge { s, e: s + w.surface.len(), kind: Kind::Sys(i), cost: w.cost as i32, left: w.left, right: w.right }); found = true; }
            }
            if !self.search() {
                if s < lo { continue; }
                // categories of one character may offer stretches of different length: what happens between
                // their ends is not specified
                assume(s >= hi);
            }
            let mut ends: Vec<usize> = vec![];
            for (rank, &cat) in self.cats_of(c).iter().enumerate() {
                if !self.cats[cat].invoke && found { continue; }
                let mut e = s + c.len_utf8();
                if self.cats[cat].group {
                    for d in text[e..].chars() {
                        let k = self.cats_of(d);
                        if k.len() > rank && k[rank] == cat { e += d.len_utf8(); } else { break; }
                    }
                }
                for u in &self.unks {
                    if u.cat == cat { es.push(Edge { s, e, kind: Kind::Unk, cost: u.cost as i32, left: u.left, right: u.right }); }
                }
                ends.push(e);
            }
            if let (Some(a), Some(b)) = (ends.iter().min(), ends.iter().max()) { lo = *a; hi = *b; }
        }
        es
    }
    /// the tokens of one sentence are a valid path of minimum cost
    pub fn verify(&self, text: &str, toks: &[(usize, usize, Kind)]) -> usize {
        let es = self.edges(text);
        // cost of the returned segmentation (cheapest reading where unknown entries share a span)
        let mut cur: Vec<(u16, i64)> = vec![(0, 0)];
        let mut at = 0;
        for &(s, e, kind) in toks {
            check(s == at, "tokens are adjacent");
            at = e;
            let mut next = vec![];
            for x in es.iter().filter(|x| x.s == s && x.e == e && x.kind == kind) {
                let mut best = i64::MAX;
                for (r, c) in &cur { best = best.min(c + self.conn(*r, x.left)); }
                next.push((x.right, best + x.cost as i64 + self.penalty(&text[s..e])));
            }
            check(!next.is_empty(), "the token is a candidate at its position");
            cur = next;
        }
        check(at == text.len(), "the tokens cover the sentence");
        let mut best = i64::MAX;
        for (r, c) in &cur { best = best.min(c + self.conn(*r, 0)); }
        let mut n = 0;
        self.all(text, &es, 0, 0, 0, best, &mut n);
        n
    }
    fn all(&self, text: &str, es: &[Edge], at: usize, right: u16, cost: i64, best: i64, n: &mut usize) {
        if at == text.len() {
            *n += 1;
            check(best <= cost + self.conn(right, 0), "no other path is cheaper");
            return;
        }
        for x in es.iter().filter(|x| x.s == at) {
            self.all(text, es, x.e, x.right, cost + self.conn(right, x.left) + x.cost as i64 + self.penalty(&text[x.s..x.e]), best, n);
        }
    }
}
pub fn kind(t: &Token) -> Kind {
    if t.word_id.is_unknown() { Kind::Unk } else if t.word_id.is_system() { Kind::Sys(t.word_id.0 as usize) } else { Kind::User(t.word_id.0 as usize) }
}
pub fn spans(toks: &[Token], base: usize) -> Vec<(usize, usize, Kind)> { toks.iter().map(|t| (t.byte_start - base, t.byte_end - base, kind(t))).collect() }
pub fn penalty(kt: usize, kp: i32, ot: usize, op: i32) -> Mode {
    Mode::Decompose(Penalty { kanji_penalty_length_threshold: kt, kanji_penalty_length_penalty: kp, other_penalty_length_threshold: ot, other_penalty_length_penalty: op })
}
/// every observable field of a token
pub fn fields(t: &mut Token) -> (String, usize, usize, usize, usize, u32, bool, Vec<String>) {
    let d = t.get_details().map(|v| v.iter().map(|s| s.to_string()).collect()).unwrap_or_default();
    (t.text.to_string(), t.byte_start, t.byte_end, t.position, t.position_length, t.word_id.0, t.word_id.1, d)
}
/// partition of the text, positions, details by kind
pub fn partition(text: &str, toks: &mut [Token]) {
    let mut at = 0;
    for (i, t) in toks.iter_mut().enumerate() {
        check(t.byte_start == at, "byte_start is the previous byte_end");
        check(t.byte_end > t.byte_start && t.byte_end <= text.len(), "token is not empty and within the text");
        check(text.is_char_boundary(t.byte_start) && text.is_char_boundary(t.byte_end) && t.text == &text[t.byte_start..t.byte_end], "token text is the slice at its offsets");
        check(t.position == i && t.position_length == 1, "positions count up");
        at = t.byte_end;
        let k = kind(t);
        let d = t.get_details();
        let ok = match (k, d) {
            (Kind::Unk, Some(d)) => d == ["UNK"],
            (Kind::Sys(i), Some(d)) => d == [format!("d{}", i).as_str()],
            (Kind::User(i), Some(d)) => d == [format!("u{}", i).as_str()],
            _ => false,
        };
        check(ok, "details are those of the entry");
    }
    check(at == text.len(), "the tokens cover the text");
}

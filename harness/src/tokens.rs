//! Hand-made filter tokens.
pub use lindera_core::word_entry::WordId;
pub use lindera_filter::token::Token;
use crate::*;
pub type Fields = (String, usize, usize, usize, usize, (u32, bool), Vec<String>);
pub fn fields(t: &Token) -> Fields { (t.text.clone(), t.byte_start, t.byte_end, t.position, t.position_length, (t.word_id.0, t.word_id.1), t.details.clone()) }
pub fn all(ts: &[Token]) -> Vec<Fields> { ts.iter().map(fields).collect() }
/// a token with arbitrary numbers in its other fields
pub fn token(text: &str, details: &[&str]) -> Token {
    Token { text: text.into(), byte_start: var_u16() as usize, byte_end: var_u16() as usize, position: var_u16() as usize, position_length: var_u8() as usize, word_id: WordId(var_u16() as u32, true), details: details.iter().map(|s| s.to_string()).collect() }
}
/// the same token after a filter that may only change its text
pub fn same_but_text(a: &Fields, b: &Fields) {
    check(a.1 == b.1 && a.2 == b.2, "offsets stay");
    check(a.3 == b.3 && a.4 == b.4, "position and length stay");
    check(a.5 == b.5, "word id stays");
    check(a.6 == b.6, "details stay");
}
pub fn same(a: &Fields, b: &Fields) { check(a.0 == b.0, "the text stays"); same_but_text(a, b) }

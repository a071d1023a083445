//! Small in-memory dictionaries for the tokenizer, built with the public types of lindera-core.
use lindera_core::character_definition::{CharacterDefinitions, CharacterDefinitionsBuilder};
use lindera_core::connection::ConnectionCostMatrix;
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::prefix_dict::PrefixDict;
use lindera_core::unknown_dictionary::UnknownDictionary;
use lindera_core::word_entry::{WordEntry, WordId};
use std::borrow::Cow;
use yada::builder::DoubleArrayBuilder;
use yada::DoubleArray;

#[derive(Clone, Copy)]
pub struct W { pub surface: &'static str, pub cost: i16, pub left: u16, pub right: u16 }
pub fn w(surface: &'static str, cost: i16, left: u16, right: u16) -> W { W { surface, cost, left, right } }

/// words must be sorted by surface (bytes); homographs adjacent; word id = index
pub fn prefix_dict(words: &[W], system: bool) -> PrefixDict<Vec<u8>> {
    let mut keys: Vec<(&[u8], u32)> = vec![];
    let mut vals = vec![];
    let mut i = 0;
    while i < words.len() {
        let mut j = i;
        while j < words.len() && words[j].surface == words[i].surface { j += 1; }
        keys.push((words[i].surface.as_bytes(), ((i as u32) << 5) | (j - i) as u32));
        for k in i..j {
            vals.extend_from_slice(&(k as u32).to_le_bytes());
            vals.extend_from_slice(&words[k].cost.to_le_bytes());
            vals.extend_from_slice(&words[k].left.to_le_bytes());
            vals.extend_from_slice(&words[k].right.to_le_bytes());
        }
        i = j;
    }
    let bytes = DoubleArrayBuilder::build(&keys).expect("double array");
    PrefixDict { da: DoubleArray::new(bytes), vals_data: vals, is_system: system }
}
pub fn matrix(fwd: u16, bwd: u16, costs: &[i16]) -> ConnectionCostMatrix {
    let mut v = vec![];
    v.extend_from_slice(&fwd.to_le_bytes());
    v.extend_from_slice(&bwd.to_le_bytes());
    for c in costs { v.extend_from_slice(&c.to_le_bytes()); }
    ConnectionCostMatrix::load(&v)
}
pub fn chardef(s: &str) -> CharacterDefinitions {
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse(s).expect("char.def");
    b.build()
}
pub struct U { pub category: &'static str, pub cost: i16, pub left: u16, pub right: u16 }
pub fn unk(cd: &CharacterDefinitions, us: &[U]) -> UnknownDictionary {
    UnknownDictionary {
        category_references: cd.categories().iter().map(|c| (0..us.len() as u32).filter(|i| us[*i as usize].category == c).collect()).collect(),
        costs: us.iter().map(|u| WordEntry { word_id: WordId(u32::MAX, true), word_cost: u.cost, left_id: u.left, right_id: u.right }).collect(),
    }
}
/// details of word i: ["d<i>"]
pub fn details(n: usize) -> (Vec<u8>, Vec<u8>) {
    let (mut idx, mut data) = (vec![], vec![]);
    for i in 0..n {
        idx.extend_from_slice(&(data.len() as u32).to_le_bytes());
        let d = [b'd', b'0' + i as u8];
        data.extend_from_slice(&2u32.to_le_bytes());
        data.extend_from_slice(&d);
    }
    (idx, data)
}
pub fn dictionary(words: &[W], m: ConnectionCostMatrix, cd: CharacterDefinitions, ud: UnknownDictionary) -> Dictionary {
    let (idx, data) = details(words.len());
    Dictionary { dict: prefix_dict(words, true), cost_matrix: m, char_definitions: cd, unknown_dictionary: ud, words_idx_data: Cow::Owned(idx), words_data: Cow::Owned(data) }
}
pub fn user_dictionary(words: &[W]) -> UserDictionary {
    let (mut idx, mut data) = (vec![], vec![]);
    for i in 0..words.len() {
        idx.extend_from_slice(&(data.len() as u32).to_le_bytes());
        data.extend_from_slice(&bincode::serialize(&vec![format!("u{}", i)]).unwrap());
    }
    UserDictionary { dict: prefix_dict(words, false), words_idx_data: idx, words_data: data }
}

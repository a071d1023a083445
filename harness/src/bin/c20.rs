//! C20: stored data reads back unchanged.
use harness::*;
use lindera_compress::compress;
use lindera_core::character_definition::{CategoryData, CategoryId, CharacterDefinitions, LookupTable};
use lindera_core::dictionary::{Dictionary, UserDictionary};
use lindera_core::prefix_dict::PrefixDict;
use lindera_core::unknown_dictionary::{parse_unk, UnknownDictionary};
use lindera_core::word_entry::{WordEntry, WordId};
use lindera_decompress::{decompress, Algorithm, CompressedData};
use lindera_dictionary::DictionaryLoader;
use lindera_dictionary_builder::{build_user_dictionary, UnkBuilderOptions};
use std::borrow::Cow;
use std::fs;

fn any_entry(system: bool) -> WordEntry { WordEntry { word_id: WordId(var_u32(), system), word_cost: var_i16(), left_id: var_u16(), right_id: var_u16() } }
fn same(a: &WordEntry, b: &WordEntry, m: &str) { check(a.word_id.0 == b.word_id.0 && a.word_id.1 == b.word_id.1 && a.word_cost == b.word_cost && a.left_id == b.left_id && a.right_id == b.right_id, m); }
/// any word entries, one after the other
fn entry() {
    let system = flag();
    let es = [any_entry(system), any_entry(system), any_entry(system)];
    let mut b = vec![];
    for (i, e) in es.iter().enumerate() { e.serialize(&mut b).unwrap(); check(b.len() == (i + 1) * WordEntry::SERIALIZED_LEN, "the serialized length"); }
    for (i, e) in es.iter().enumerate() {
        same(&WordEntry::deserialize(&b[i * WordEntry::SERIALIZED_LEN..], system), e, "a word entry reads back unchanged");
        check(e.left_id() == e.left_id as u32 && e.right_id() == e.right_id as u32, "its ids");
        check(e.word_id.is_system() == system && e.word_id.is_unknown() == (e.word_id.0 == u32::MAX), "system or not, unknown or not");
    }
    let c: Vec<WordEntry> = bincode::deserialize(&bincode::serialize(&es.to_vec()).unwrap()).unwrap();
    for (a, b) in es.iter().zip(&c) { same(a, b, "through bincode as well"); }
    cover("read");
}
/// any entries found through a prefix dictionary, saved and loaded
fn lookup() {
    let system = flag();
    let words = [dict::w("a", 0, 0, 0), dict::w("a", 0, 0, 0), dict::w("ab", 0, 0, 0), dict::w("あ", 0, 0, 0)];
    let es: Vec<WordEntry> = (0..4).map(|_| any_entry(system)).collect();
    let mut vals = vec![];
    for e in &es { e.serialize(&mut vals).unwrap(); }
    let d = dict::prefix_dict(&words, system);
    let d: PrefixDict<Vec<u8>> = PrefixDict { da: d.da, vals_data: vals, is_system: system };
    let (idx, data) = dict::details(4);
    let u = UserDictionary { dict: d, words_idx_data: idx, words_data: data };
    let u = match choose(3) {
        0 => u,
        1 => UserDictionary::load(&bincode::serialize(&u).unwrap()).unwrap(),
        _ => { let p = scratch().join("u.bin"); build_user_dictionary(u, &p).unwrap(); DictionaryLoader::load_user_dictionary_from_bin(p).unwrap() }
    };
    for (s, r) in [("a", 0..2), ("ab", 2..3), ("あ", 3..4), ("b", 4..4), ("", 4..4)] {
        let got = u.dict.find_surface(s);
        check(got.len() == r.len(), "as many entries as stored");
        for (g, e) in got.iter().zip(&es[r]) { cover("found"); same(g, e, "the entries stored, in order"); }
    }
    let p: Vec<(usize, WordEntry)> = u.dict.prefix("abc").collect();
    check(p.len() == 3 && p[0].0 == 1 && p[1].0 == 1 && p[2].0 == 2, "the prefixes");
    for (g, e) in p.iter().zip(&es) { same(&g.1, e, "the entries stored, in order"); }
}
const CATS: &[&str] = &["DEFAULT", "KANJI", "HIRA", "OTHER"];
/// the entries of the categories, in file order
fn grouped(u: &UnknownDictionary, ls: &[(usize, u16, u16, i16)]) {
    for c in 0..3 {
        let ids = u.lookup_word_ids(CategoryId(c));
        let want: Vec<&(usize, u16, u16, i16)> = ls.iter().filter(|l| l.0 == c).collect();
        check(ids.len() == want.len(), "as many entries as lines of the category");
        if ids.len() > 1 { cover("several") }
        for (i, w) in ids.iter().zip(want) {
            let e = u.word_entry(*i);
            check(e.left_id == w.1 && e.right_id == w.2 && e.word_cost == w.3, "exactly the ids and cost of the line, in file order");
            check(e.word_id.is_unknown() && e.word_id.is_system(), "an unknown word");
            out(e.word_cost as u64 & 0xffff);
        }
    }
}
const NUM: &[(u16, u16, i16)] = &[(0, 65535, -32768), (7, 8, 32767), (7, 8, 0), (65535, 0, -1), (300, 256, 255), (1, 2, -300)];
fn unk_text(ls: &[(usize, u16, u16, i16)], pad: usize) -> String { ls.iter().map(|l| format!("{},{},{},{}{}\n", CATS[l.0], l.1, l.2, l.3, ",*".repeat(pad))).collect() }
fn reload(u: UnknownDictionary) -> UnknownDictionary { if flag() { UnknownDictionary::load(&bincode::serialize(&u).unwrap()).unwrap() } else { u } }
/// lines of unk.def in any order of categories
fn unk() {
    let cats: Vec<String> = CATS[..3].iter().map(|s| s.to_string()).collect();
    let n = choose(5);
    let k = choose(NUM.len());
    let ls: Vec<(usize, u16, u16, i16)> = (0..n).map(|i| { let x = NUM[(i + k) % NUM.len()]; (choose(4), x.0, x.1, x.2) }).collect();
    let pad = choose(2) * 3;
    grouped(&reload(parse_unk(&cats, &unk_text(&ls, pad), 4 + pad).unwrap()), &ls);
}
/// through the builder and the loader
fn unk_built() {
    let s = scratch();
    let (i, o) = (s.join("in"), s.join("out"));
    fs::create_dir_all(&i).unwrap();
    fs::create_dir_all(&o).unwrap();
    let ls: Vec<(usize, u16, u16, i16)> = (0..3).map(|i| { let x = NUM[(i + choose(2)) % NUM.len()]; (choose(4), x.0, x.1, x.2) }).collect();
    fs::write(i.join("unk.def"), unk_text(&ls, 6)).unwrap();
    let cd = dict::chardef("DEFAULT 0 1 0\nKANJI 0 1 0\nHIRA 1 1 0\n0x3041 HIRA\n");
    UnkBuilderOptions::default().unk_fields_num(10).builder().unwrap().build(&i, &cd, &o).unwrap();
    grouped(&DictionaryLoader::unknown_dict(o).unwrap(), &ls);
}
/// digits of an id and a cost
fn unk_digits() {
    let cats = vec!["DEFAULT".to_string(), "KANJI".to_string(), "HIRA".to_string()];
    let d = || { let d = pick(10) as u8; ((b'0' + d) as char, d as u32) };
    let (mut s, mut v) = (String::new(), 0u32);
    for _ in 0..4 { let (c, n) = d(); s.push(c); v = v * 10 + n; }
    let neg = flag();
    let f = if neg { 3 } else { choose(3) + 1 };
    let mut l = vec!["KANJI".to_string(), "1".into(), "2".into(), "3".into()];
    l[f] = if neg { format!("-{}", s) } else { s };
    let text = format!("HIRA,5,5,5\n{}\nKANJI,6,6,6\n", l.join(","));
    let u = parse_unk(&cats, &text, 4).unwrap();
    let ids = u.lookup_word_ids(CategoryId(1));
    check(ids.len() == 2, "the two lines of the category");
    let e = u.word_entry(ids[0]);
    let mut w = [1u32, 2, 3];
    w[f - 1] = v;
    check(e.left_id as u32 == w[0] && e.right_id as u32 == w[1], "the ids given");
    check(e.word_cost as i32 == if neg { -(v as i32) } else { w[2] as i32 }, "the cost given");
    check(u.word_entry(ids[1]).word_cost == 6 && u.word_entry(u.lookup_word_ids(CategoryId(2))[0]).word_cost == 5, "the other lines");
    cover("parsed");
}
/// unknown-word entries with any numbers
fn unk_any() {
    let u = UnknownDictionary { category_references: vec![vec![0, 2], vec![], vec![1]], costs: (0..3).map(|_| any_entry(true)).collect() };
    let v = UnknownDictionary::load(&bincode::serialize(&u).unwrap()).unwrap();
    check(v.costs.len() == 3, "as many entries");
    for i in 0..3 { same(&v.word_entry(i), &u.costs[i as usize], "an unknown-word entry reads back unchanged"); }
    for c in 0..3 { check(v.lookup_word_ids(CategoryId(c)) == &u.category_references[c][..], "the entries of a category"); }
    cover("read");
}
/// character definitions with any settings and any boundaries
fn chardef() {
    let defs: Vec<CategoryData> = (0..2).map(|_| CategoryData { invoke: var_bool(), group: var_bool(), length: var_u32() }).collect();
    let (a, b) = (var_u32(), var_u32());
    assume(a < b);
    assume(a > 0);
    assume(b < 0x110000);
    let t = LookupTable::from_fn(vec![0, a, b], &|c, v| { v.clear(); if c >= a { v.push(CategoryId(1)); } v.push(CategoryId(0)); });
    let cd = CharacterDefinitions { category_definitions: defs.clone(), category_names: vec!["DEFAULT".into(), "あ".into()], mapping: t };
    let ld = CharacterDefinitions::load(&bincode::serialize(&cd).unwrap()).unwrap();
    check(ld.categories() == cd.categories(), "the names");
    for i in 0..2 {
        let (x, y) = (ld.lookup_definition(CategoryId(i)), &defs[i]);
        check(x.invoke == y.invoke && x.group == y.group && x.length == y.length, "the settings read back unchanged");
    }
    let c = var_u32();
    assume(c < 0x110000);
    assume(!(0xd800..0xe000).contains(&c));
    let c = unsafe { char::from_u32_unchecked(c) };
    let (x, y) = (ld.lookup_categories(c), cd.lookup_categories(c));
    check(x.len() == y.len() && x.len() == if c as u32 >= a { 2 } else { 1 } && x.iter().zip(y).all(|(x, y)| x.0 == y.0), "the categories of every character");
    cover(if x.len() == 2 { "listed" } else { "default" });
}
/// the connection matrix and a whole dictionary
fn dictionary() {
    let costs: Vec<i16> = (0..4).map(|_| var_i16()).collect();
    let words = [dict::w("a", 1, 0, 0), dict::w("b", 2, 1, 1)];
    let cd = dict::chardef("DEFAULT 0 1 0\nHIRA 1 1 0\n0x3041 HIRA\n");
    let ud = dict::unk(&cd, &[dict::U { category: "HIRA", cost: -5, left: 1, right: 0 }]);
    let d = dict::dictionary(&words, dict::matrix(2, 2, &costs), cd, ud);
    let e: Dictionary = bincode::deserialize(&bincode::serialize(&d).unwrap()).unwrap();
    for f in 0..2 { for b in 0..2 { check(e.cost_matrix.cost(f, b) == costs[(f * 2 + b) as usize] as i32 && d.cost_matrix.cost(f, b) == e.cost_matrix.cost(f, b), "the connection costs"); } }
    for (i, w) in words.iter().enumerate() {
        let g = e.dict.find_surface(w.surface);
        check(g.len() == 1 && g[0].word_id.0 == i as u32 && g[0].word_cost == w.cost && g[0].left_id == w.left && g[0].word_id.is_system(), "the words");
        check(e.word_details(i) == d.word_details(i) && e.word_details(i).is_some(), "the details");
    }
    check(e.char_definitions.lookup_categories('ぁ')[0].0 == 1, "the categories");
    check(e.unknown_dictionary.word_entry(0).word_cost == -5, "the unknown words");
    cover("read");
}
/// raw data of any bytes
fn raw() {
    let n = [0, 1, 2, 7, 40][choose(5)];
    let v: Vec<u8> = (0..n).map(|_| var_u8()).collect();
    let c = compress(&v, Algorithm::Raw).unwrap();
    let c: CompressedData = if flag() { bincode::deserialize(&bincode::serialize(&c).unwrap()).unwrap() } else { c };
    let r = decompress(c).unwrap();
    check(r.len() == n && r == v, "raw data decompresses to itself");
    cover("read");
}
/// details of a system dictionary with any bytes around them
fn details() {
    // three words: lengths chosen, contents any ASCII letter, fields separated by NUL
    let mut idx: Vec<u8> = vec![];
    let mut data: Vec<u8> = vec![];
    let mut want: Vec<Vec<String>> = vec![];
    for _ in 0..3 {
        let nf = choose(3) + 1;
        let fs: Vec<String> = (0..nf).map(|_| { let mut s = String::new(); if flag() { let b = var_u8(); assume(b >= 1); assume(b < 0x80); s.push(b as char); s.push('あ'); } s }).collect();
        let j = fs.join("\0");
        idx.extend_from_slice(&(data.len() as u32).to_le_bytes());
        data.extend_from_slice(&(j.len() as u32).to_le_bytes());
        data.extend_from_slice(j.as_bytes());
        want.push(fs);
    }
    let cd = dict::chardef("DEFAULT 0 1 0\n");
    let ud = dict::unk(&cd, &[]);
    let d = Dictionary { dict: dict::prefix_dict(&[dict::w("a", 1, 0, 0)], true), cost_matrix: dict::matrix(1, 1, &[0]), char_definitions: cd, unknown_dictionary: ud, words_idx_data: Cow::Owned(idx), words_data: Cow::Owned(data) };
    for (i, w) in want.iter().enumerate() {
        let g = d.word_details(i);
        check(g.is_some(), "every word has details");
        let g = g.unwrap();
        check(g.len() == w.len() && g == *w, "the details stored");
        cover("read");
    }
    for i in [3usize, 4, 1000] { check(d.word_details(i).is_none(), "no details for other ids"); }
}
entries! { sx_entry_c20_entry => entry; sx_entry_c20_lookup => lookup; sx_entry_c20_unk => unk; sx_entry_c20_unk_built => unk_built; sx_entry_c20_unk_digits => unk_digits; sx_entry_c20_unk_any => unk_any; sx_entry_c20_chardef => chardef; sx_entry_c20_dictionary => dictionary; sx_entry_c20_raw => raw; sx_entry_c20_details => details; }

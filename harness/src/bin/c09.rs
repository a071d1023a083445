//! C09: character categories are those of the character definition file.
use harness::*;
use lindera_core::character_definition::*;
use lindera_dictionary_builder::CharDefBuilderOptions;

const CATS: &[&str] = &["DEFAULT", "SPACE", "KANJI", "HIRA"];
struct Range { lo: u32, hi: u32, cats: Vec<usize> }
fn hex(n: u32) -> String { if n == 0 { "0x0000".into() } else { format!("0x{:04X}", n) } }
fn file(defs: &[(bool, bool, u32)], rs: &[Range], style: usize) -> String {
    let mut s = String::from("# comment\n\n");
    for (i, (a, b, l)) in defs.iter().enumerate() { s += &format!("{}{}{} {} {}{}\n", CATS[i], if style == 1 { "\t " } else { " " }, *a as u8, *b as u8, l, if style == 1 { "  # note" } else { "" }); }
    for r in rs {
        if r.lo == r.hi && style == 0 { s += &hex(r.lo); } else { s += &format!("{}..{}", hex(r.lo), hex(r.hi)); }
        for c in &r.cats { s += " "; s += CATS[*c]; }
        s += if style == 1 { " # 0x3041 KANJI\r\n" } else { "\n" };
    }
    s
}
fn reload(cd: CharacterDefinitions, how: usize) -> CharacterDefinitions {
    match how {
        0 => cd,
        _ => CharacterDefinitions::load(&bincode::serialize(&cd).unwrap()).unwrap(),
    }
}
fn categories_of(cd: &CharacterDefinitions, c: char, rs: &[Range]) {
    let got = cd.lookup_categories(c);
    let mut want: Vec<usize> = vec![];
    for r in rs {
        if r.lo <= c as u32 && c as u32 <= r.hi {
            for k in &r.cats { if !want.contains(k) { want.push(*k); } }
        }
    }
    if want.is_empty() { want.push(0); cover("default") } else { cover("listed") }
    if want.len() > 1 { cover("several categories") }
    check(got.len() == want.len(), "as many categories as the definition assigns");
    for (g, k) in got.iter().zip(&want) { check(cd.category_name(*g) == CATS[*k], "the assigned categories, in file order"); out(*k as u64); }
}
fn any() -> char {
    let x = var_u32();
    assume(x < 0x110000);
    assume(!(0xd800..0xe000).contains(&x));
    unsafe { char::from_u32_unchecked(x) }
}
fn definitions(cd: &CharacterDefinitions, defs: &[(bool, bool, u32)]) {
    check(cd.categories().len() == defs.len(), "as many categories as definition lines");
    for (i, (a, b, l)) in defs.iter().enumerate() {
        let id = CategoryId(i);
        check(cd.category_name(id) == CATS[i] && cd.categories()[i] == CATS[i], "names of the categories");
        let d = cd.lookup_definition(id);
        check(d.invoke == *a && d.group == *b && d.length == *l, "settings of the category's own line");
    }
}
/// overlapping, nested and adjacent ranges chosen among many, and every Unicode character
fn ranges() {
    let pool: &[(u32, u32)] = &[(0x20, 0x20), (0x3041, 0x309f), (0x3041, 0x3041), (0x3000, 0xffff), (0x309f, 0x30a0), (0, 0xffff), (0, 0x1f)];
    let cs: &[&[usize]] = &[&[1], &[3, 2], &[2], &[2, 0]];
    let rs: Vec<Range> = (0..2).map(|_| { let (lo, hi) = pool[choose(pool.len())]; Range { lo, hi, cats: cs[choose(cs.len())].to_vec() } }).collect();
    let defs = [(false, true, 0), (false, true, 1), (false, false, 2), (true, true, 0)];
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse(&file(&defs, &rs, choose(2))).unwrap();
    let cd = b.build();
    definitions(&cd, &defs);
    categories_of(&cd, any(), &rs);
}
/// three ranges
fn three() {
    let pool: &[(u32, u32)] = &[(0x3041, 0x309f), (0x3050, 0x3060), (0x3041, 0x3050), (0x3060, 0xffff)];
    let cs: &[&[usize]] = &[&[1], &[3, 2]];
    let rs: Vec<Range> = (0..3).map(|_| { let (lo, hi) = pool[choose(pool.len())]; Range { lo, hi, cats: cs[choose(cs.len())].to_vec() } }).collect();
    let defs = [(true, true, 0), (false, true, 1), (false, false, 2), (true, true, 0)];
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse(&file(&defs, &rs, 0)).unwrap();
    let cd = reload(b.build(), choose(2));
    categories_of(&cd, any(), &rs);
}
/// the bounds are four symbolic hexadecimal digits
fn bounds() {
    let dig = || { let d = var_u8(); assume(d.is_ascii_digit() || (d >= b'a' && d <= b'f') || (d >= b'A' && d <= b'F')); d };
    let val = |d: u8| if d <= b'9' { (d - b'0') as u32 } else { ((d | 32) - b'a') as u32 + 10 };
    let (a, b) = (dig(), dig());
    let mut s = b"DEFAULT 0 1 0\nSPACE 1 0 2\n0x30".to_vec();
    s.push(a);
    s.extend_from_slice(b"4..0x31");
    s.push(b);
    s.extend_from_slice(b"c SPACE\n");
    let (lo, hi) = (0x3004 + val(a) * 16, 0x310c + val(b) * 16);
    let mut bd = CharacterDefinitionsBuilder::default();
    bd.parse(unsafe { std::str::from_utf8_unchecked(&s) }).unwrap();
    let cd = bd.build();
    let c = any();
    let got = cd.lookup_categories(c);
    check(got.len() == 1, "one category");
    let space = lo <= c as u32 && c as u32 <= hi;
    check(cd.category_name(got[0]) == if space { "SPACE" } else { "DEFAULT" }, "both bounds are inclusive");
    cover(if space { "listed" } else { "default" });
}
/// flags and length of the definition lines
fn settings() {
    let defs: Vec<(bool, bool, u32)> = (0..3).map(|_| (flag(), flag(), choose(3) as u32)).collect();
    let rs = vec![Range { lo: 0x3041, hi: 0x3060, cats: vec![2] }];
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse(&file(&defs, &rs, choose(2))).unwrap();
    let cd = reload(b.build(), choose(2));
    definitions(&cd, &defs);
    cover("checked");
}
/// through the dictionary builder: char.def in a source directory, char_def.bin in the output directory
fn built() {
    let dir = scratch();
    let (i, o) = (dir.join("in"), dir.join("out"));
    std::fs::create_dir_all(&i).unwrap();
    std::fs::create_dir_all(&o).unwrap();
    let defs = [(flag(), true, 0), (false, flag(), 1), (false, false, 2), (true, true, 0)];
    let rs = vec![Range { lo: 0x20, hi: 0x20, cats: vec![1] }, Range { lo: 0x3041, hi: 0x309f, cats: vec![3] }, Range { lo: 0x3005, hi: 0x3060, cats: vec![2, 3] }];
    std::fs::write(i.join("char.def"), file(&defs, &rs, choose(2))).unwrap();
    let a = CharDefBuilderOptions::default().builder().unwrap().build(&i, &o).unwrap();
    let b = lindera_dictionary::DictionaryLoader::char_def(o).unwrap();
    let cd = if flag() { a } else { b };
    definitions(&cd, &defs);
    categories_of(&cd, any(), &rs);
}
/// many categories and many ranges
fn large() {
    let mut s = String::new();
    for i in 0..300 { s += &format!("{} {} {} {}\n", if i == 0 { "DEFAULT".to_string() } else { format!("C{}", i) }, i % 2, i / 2 % 2, i); }
    let n = 40;
    // ranges of 256 characters every 0x180, each overlapping nothing
    for i in 0..n { s += &format!("0x{:04X}..0x{:04X} C{} C{}\n", i * 0x180, i * 0x180 + 0xff, 299 - i, i + 1); }
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse(&s).unwrap();
    let cd = reload(b.build(), choose(2));
    check(cd.categories().len() == 300, "as many categories as definition lines");
    for i in 0..300 {
        let d = cd.lookup_definition(CategoryId(i));
        check(cd.category_name(CategoryId(i)) == if i == 0 { "DEFAULT".to_string() } else { format!("C{}", i) }, "names of the categories");
        check(d.invoke == (i % 2 == 1) && d.group == (i / 2 % 2 == 1) && d.length == i as u32, "settings of the category's own line");
    }
    let c = any();
    let got = cd.lookup_categories(c);
    let k = c as usize / 0x180;
    if k < n && c as usize % 0x180 <= 0xff {
        check(got.len() == 2 && got[0].0 == 299 - k && got[1].0 == k + 1, "the assigned categories, in file order");
        cover("listed");
    } else {
        check(got.len() == 1 && got[0].0 == 0, "the default category");
        cover("default");
    }
}
/// a character in many ranges, with as many categories
fn nested() {
    let n = 40usize;
    let mut s = String::from("DEFAULT 0 1 0\n");
    for i in 1..=n { s += &format!("C{} 1 0 {}\n", i, i); }
    // range i holds the characters from 16 * i on, to the end of the plane or (every third) for 0x400 characters; the widest last
    let rs: Vec<(u32, u32, usize)> = (0..n).map(|i| { let k = n - i; let lo = 16 * k as u32; (lo, if k % 3 == 0 { lo + 0x400 } else { 0xffff }, k) }).collect();
    for (lo, hi, k) in &rs { s += &format!("0x{:04X}..0x{:04X} C{}\n", lo, hi, k); }
    let mut b = CharacterDefinitionsBuilder::default();
    b.parse(&s).unwrap();
    let cd = reload(b.build(), choose(2));
    let c = any();
    let got = cd.lookup_categories(c);
    let mut want: Vec<usize> = rs.iter().filter(|r| r.0 <= c as u32 && c as u32 <= r.1).map(|r| r.2).collect();
    if want.is_empty() { want.push(0); cover("default") } else { cover("listed") }
    check(got.iter().map(|g| g.0).collect::<Vec<_>>() == want, "every category assigned, in file order");
    out(want.len() as u64);
}
entries! { sx_entry_c09_nested => nested; sx_entry_c09_ranges => ranges; sx_entry_c09_three => three; sx_entry_c09_bounds => bounds; sx_entry_c09_settings => settings; sx_entry_c09_built => built; sx_entry_c09_large => large; }

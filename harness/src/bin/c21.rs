//! C21: deflate, zlib and gzip compressed data decompresses to itself.
use harness::*;
use lindera_compress::compress;
use lindera_decompress::{decompress, Algorithm, CompressedData};

const ALGORITHMS: [Algorithm; 3] = [Algorithm::Deflate, Algorithm::Zlib, Algorithm::Gzip];
fn there_and_back(v: Vec<u8>) {
    let c = compress(&v, ALGORITHMS[choose(3)]).unwrap();
    let c: CompressedData = if flag() { bincode::deserialize(&bincode::serialize(&c).unwrap()).unwrap() } else { c };
    let r = decompress(c);
    check(r.is_ok(), "compressed data decompresses");
    let r = r.unwrap();
    check(r.len() == v.len(), "to the same length");
    check(r == v, "to the same bytes");
    out(r.len() as u64);
    cover("compared");
}
/// any byte
fn one() { there_and_back(vec![var_u8()]); }
/// short strings over two bytes
fn short() {
    let n = choose(9);
    there_and_back((0..n).map(|_| [0u8, 255][choose(2)]).collect());
}
/// repetitions of a short string
fn repeated() {
    let unit = [&b"a"[..], b"ab\0", b"\x00\x01\x02\x03\x04\x05\x06\x07"][choose(3)];
    let n = [3, 258, 259, 1000, 4096, 33000, 70000][choose(7)];
    there_and_back((0..n).map(|i| unit[i % unit.len()]).collect());
}
/// scrambled data (stored blocks, literals, several buffers) with one of 16 bytes in it
fn scrambled() {
    let n = [20, 300, 5000][choose(3)];
    let mut x = 7u32;
    let mut v: Vec<u8> = (0..n).map(|i| { x = x.wrapping_mul(1664525).wrapping_add(1013904223); if i % 100 < 60 { (x >> 24) as u8 } else { b'z' } }).collect();
    let at = [0, n / 2, n - 1][choose(3)];
    v[at] = choose(16) as u8 * 17;
    there_and_back(v);
}
entries! { sx_entry_c21_one => one; sx_entry_c21_short => short; sx_entry_c21_repeated => repeated; sx_entry_c21_scrambled => scrambled; }

// Codes of the FMP12 format, written down from its notes.

/// The directory number two bytes carry: the high bits 1111 1xx of the first byte hold nothing but xx.
pub fn path_value(b1: u8, b2: u8) -> usize {
    let mut h = (b1 % 128) as usize;
    if h >= 124 { h -= 124; }
    128 + 256 * h + b2 as usize
}
pub const PATH_MAX: usize = 128 + 256 * 123 + 255;

/// The codes of the supported characters, from the format notes.
const CODES: &[(char, u8, u8)] = &[(' ', 2, 10), ('_', 2, 29), ('a', 18, 15), ('b', 18, 37), ('c', 18, 61), ('d', 18, 80), ('e', 18, 107),
    ('f', 18, 163), ('g', 18, 176), ('h', 18, 211), ('i', 18, 236), ('j', 19, 5), ('k', 19, 30), ('l', 19, 48), ('m', 19, 95), ('n', 19, 109),
    ('o', 19, 142), ('p', 19, 179), ('q', 19, 200), ('r', 19, 218), ('s', 20, 16), ('t', 20, 51), ('u', 20, 83), ('v', 20, 123),
    ('w', 20, 141), ('x', 20, 151), ('y', 20, 156), ('z', 20, 173)];

pub fn supported() -> Vec<char> {
    let mut v: Vec<char> = vec![' ', '_'];
    v.extend('a'..='z');
    v.extend('A'..='Z');
    v
}
/// Two-byte code of a supported character.
pub fn code_of(c: char) -> (u8, u8) {
    CODES.iter().find(|x| x.0 == c.to_ascii_lowercase()).map(|x| (x.1, x.2)).expect("supported")
}

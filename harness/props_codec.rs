// C20 integer codecs, C21 text codecs, C22 chunk decoding: exhaustive enumeration of the
// real decoders against independently written byte layouts.
use super::engine::{h64, Ctx, Prop};
use crate::chunk::{get_chunk_from_code, ChunkType};
use super::codes::{code_of, path_value, supported, PATH_MAX};
use codec::{fm_string_decrypt, fm_string_encrypt, get_int, get_path_int, put_int, put_path_int};
use codec as dbcharconv;
use std::collections::{BTreeMap, BTreeSet};

/// The functions under test, whatever types of numbers and texts they take and give.
mod codec {
    use crate::{dbcharconv as d, encoding_util as u};
    use std::borrow::Cow;
    pub trait Num: Copy { fn of(n: u64) -> Self; fn wide(self) -> u64; }
    macro_rules! num { ($($t:ty)*) => { $(impl Num for $t { fn of(n: u64) -> Self { n as $t } fn wide(self) -> u64 { self as u64 } })* } }
    num!(usize u64 u32 u16 i32 i64);
    pub trait Bytes { fn get(self) -> Vec<u8>; }
    impl Bytes for Vec<u8> { fn get(self) -> Vec<u8> { self } }
    impl Bytes for [u8; 4] { fn get(self) -> Vec<u8> { self.to_vec() } }
    impl Bytes for [u8; 2] { fn get(self) -> Vec<u8> { self.to_vec() } }
    impl Bytes for &[u8] { fn get(self) -> Vec<u8> { self.to_vec() } }
    impl Bytes for Box<[u8]> { fn get(self) -> Vec<u8> { self.to_vec() } }
    pub trait Text { fn text(self) -> String; }
    impl Text for String { fn text(self) -> String { self } }
    impl Text for &str { fn text(self) -> String { self.to_string() } }
    impl Text for Cow<'_, str> { fn text(self) -> String { self.into_owned() } }
    impl<E: std::fmt::Debug> Text for Result<String, E> { fn text(self) -> String { match self { Ok(t) => t, Err(e) => format!("{:?}", e) } } }
    fn put<N: Num, B: Bytes>(f: impl Fn(N) -> B, n: u64) -> Vec<u8> { f(N::of(n)).get() }
    pub trait FromBytes<M> { fn from(&self, b: &[u8]) -> u64; }
    impl<N: Num, F: Fn(&[u8]) -> N> FromBytes<(N,)> for F { fn from(&self, b: &[u8]) -> u64 { self(b).wide() } }
    impl<N: Num, F: Fn(&Vec<u8>) -> N> FromBytes<[N; 1]> for F { fn from(&self, b: &[u8]) -> u64 { self(&b.to_vec()).wide() } }
    pub trait OfText<M> { fn bytes(&self, t: &str) -> Vec<u8>; }
    impl<B: Bytes, F: Fn(&str) -> B> OfText<(B,)> for F { fn bytes(&self, t: &str) -> Vec<u8> { self(t).get() } }
    impl<B: Bytes, F: Fn(String) -> B> OfText<[B; 1]> for F { fn bytes(&self, t: &str) -> Vec<u8> { self(t.to_string()).get() } }
    impl<B: Bytes, F: Fn(&String) -> B> OfText<[B; 2]> for F { fn bytes(&self, t: &str) -> Vec<u8> { self(&t.to_string()).get() } }
    pub trait ToText<M> { fn read(&self, b: &[u8]) -> String; }
    impl<T: Text, F: Fn(&[u8]) -> T> ToText<(T,)> for F { fn read(&self, b: &[u8]) -> String { self(b).text() } }
    impl<T: Text, F: Fn(Vec<u8>) -> T> ToText<[T; 1]> for F { fn read(&self, b: &[u8]) -> String { self(b.to_vec()).text() } }
    impl<T: Text, F: Fn(&Vec<u8>) -> T> ToText<[T; 2]> for F { fn read(&self, b: &[u8]) -> String { self(&b.to_vec()).text() } }
    pub fn put_int(n: usize) -> Vec<u8> { put(u::put_int, n as u64) }
    pub fn put_path_int(n: u32) -> Vec<u8> { put(u::put_path_int, n as u64) }
    pub fn get_int(b: &[u8]) -> usize { u::get_int.from(b) as usize }
    pub fn get_path_int(b: &[u8]) -> usize { u::get_path_int.from(b) as usize }
    pub fn fm_string_encrypt(t: String) -> Vec<u8> { u::fm_string_encrypt.bytes(&t) }
    pub fn fm_string_decrypt(b: &[u8]) -> String { u::fm_string_decrypt.read(b) }
    pub fn encode_text(t: &str) -> Vec<u8> { d::encode_text.bytes(t) }
    pub fn decode_bytes(b: &[u8]) -> String { d::decode_bytes.read(b) }
    pub use d::{decode_char, encode_char};
}

// ---------------------------------------------------------------------------- C20

fn be(n: u64) -> [u8; 4] { [(n / 16777216 % 256) as u8, (n / 65536 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8] }

fn int_round(n: u64) -> Result<(), String> {
    let e = put_int(n as usize);
    if e != be(n) { return Err(format!("{} is encoded as {:?}", n, e)); }
    let d = get_int(&e);
    if d as u64 != n { return Err(format!("{} is encoded as {:?}, which decodes to {}", n, e, d)); }
    Ok(())
}

pub fn c20() -> Prop {
    Prop {
        id: "C20", level: "model_checking",
        rule: "put_int/get_int executed on every number of each enumerated block of 65536 (quick: 300 blocks, and 96 numbers of every other block; thorough: all 2^32 numbers); get_int on every one- and two-byte form and every four-byte form built from two enumerated halves; put_path_int/get_path_int on every directory number of the one- and two-byte forms, all 256 + 65536 encodings, and through directory chunks. states = distinct blocks and encodings, transitions = encode/decode executions.",
        assumptions: &["Directory numbers above 31871 have no two-byte form and are not encoded.",
            "Numbers of the three-byte form (which the tool reads as 0) and beyond 32 bits are outside of the property."],
        run: |ctx: &mut Ctx| {
            let full = |h: u64| h < 96 || h % 256 == 0 && h / 256 < 64 || h % 256 == 255 && h / 256 < 64 || h >= 0xffc0 || (0x7fe0..0x8020).contains(&h);
            for h in 0..65536u64 {
                if !ctx.next_is_mine() { ctx.skip_case(); continue; }
                let all = !ctx.quick() || full(h);
                ctx.case(|| format!("numbers {:#x} to {:#x}", h << 16, (h << 16) + 65535), |ctx| {
                    ctx.states.add(h64(&(0, h)));
                    let lows = |i: u64| if i < 32 { i } else if i < 64 { 65535 - (i - 32) } else if i < 80 { 1 << (i - 64) } else { 257 * (i - 79) };
                    for i in 0..if all { 65536 } else { 96 } {
                        int_round((h << 16) + if all { i } else { lows(i) })?;
                        ctx.transitions += 2;
                    }
                    // the two-byte form of the same bytes
                    let b = be(h);
                    let d = get_int(&b[2..4]) as u64;
                    if d != h { return Err(format!("two bytes {:?} decode to {}", &b[2..4], d)); }
                    ctx.transitions += 1;
                    Ok(())
                });
            }
            for b in 0..256usize {
                ctx.case(|| format!("one byte {:#x}", b), |ctx| {
                    ctx.states.add(h64(&(1, b)));
                    ctx.transitions += 2;
                    if get_int(&[b as u8]) != b { return Err(format!("integer byte {} decodes to {}", b, get_int(&[b as u8]))); }
                    if get_path_int(&[b as u8]) != b { return Err(format!("directory byte {} decodes to {}", b, get_path_int(&[b as u8]))); }
                    Ok(())
                });
            }
            for h in 0..256usize {
                ctx.case(|| format!("two-byte directory forms {:#x} xx", h), |ctx| {
                    for l in 0..256usize {
                        ctx.states.add(h64(&(2, h, l)));
                        ctx.transitions += 1;
                        let (want, got) = (path_value(h as u8, l as u8), get_path_int(&[h as u8, l as u8]));
                        if want != got { return Err(format!("directory bytes {:#x} {:#x} decode to {} instead of {}", h, l, got, want)); }
                    }
                    Ok(())
                });
            }
            for blk in 0..=PATH_MAX / 256 {
                ctx.case(|| format!("directory numbers {} to {}", blk * 256, blk * 256 + 255), |ctx| {
                    for n in blk * 256..(blk * 256 + 256).min(PATH_MAX + 1) {
                        let e = put_path_int(n as u32);
                        ctx.states.add(h64(&(3, &e)));
                        ctx.transitions += 3;
                        if e.len() != if n < 128 { 1 } else { 2 } { return Err(format!("directory {} is encoded as {:?}", n, e)); }
                        if get_path_int(&e) != n { return Err(format!("directory {} is encoded as {:?}, which decodes to {}", n, e, get_path_int(&e))); }
                        // as a directory chunk
                        let mut c = vec![if n < 128 { 0x20 } else { 0x28 }];
                        if e[0] == 0xFE && n < 128 { continue; }
                        c.extend(&e);
                        c.push(0x40);
                        let (mut off, mut path) = (0, vec![]);
                        get_chunk_from_code(&c, &mut off, &mut path, 0)?;
                        if off != c.len() - 1 || path != vec![n.to_string()] { return Err(format!("directory {} is opened as {:?}", n, path)); }
                    }
                    Ok(())
                });
            }
            ctx.case(|| "distinct directory numbers have distinct encodings".into(), |ctx| {
                let mut seen = BTreeMap::new();
                for n in 0..=PATH_MAX {
                    ctx.transitions += 1;
                    if let Some(o) = seen.insert(put_path_int(n as u32), n) { return Err(format!("directories {} and {} are both encoded as {:?}", o, n, put_path_int(n as u32))); }
                }
                Ok(())
            });
        },
    }
}

// ---------------------------------------------------------------------------- C21

const CHARS: [char; 27] = ['a', 'Z', '0', ' ', '"', '\\', '\n', '\t', '\0', 'Z', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€',
    '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{301}', 'ß', '\u{200d}'];

fn text_round(t: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.transitions += 2;
    let e = fm_string_encrypt(t.to_string());
    let want: Vec<u8> = t.as_bytes().iter().map(|b| (b | 0x5A) - (b & 0x5A)).collect();
    if e != want { return Err(format!("{:?} is encoded as {:?}", t, e)); }
    let d = fm_string_decrypt(&e);
    if d != t { return Err(format!("{:?} decodes to {:?}", t, d)); }
    Ok(())
}

fn bytes_decode(b: &[u8], bad: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.transitions += 1;
    let plain: Vec<u8> = b.iter().map(|x| x ^ 0x5A).collect();
    let got = fm_string_decrypt(b);
    match std::str::from_utf8(&plain) {
        Ok(t) if t == got => Ok(()),
        Err(_) if bad == got => Ok(()),
        _ => Err(format!("bytes {:?} decode to {:?}", b, got)),
    }
}

fn double_round(t: &str, ctx: &mut Ctx) -> Result<(), String> {
    let e = dbcharconv::encode_text(t);
    let mut want = vec![];
    for c in t.chars() { let (h, l) = code_of(c); want.push(h); want.push(l); }
    ctx.transitions += 2;
    if e != want { return Err(format!("{:?} is encoded as {:?} instead of {:?}", t, e, want)); }
    let low: String = t.chars().map(|c| c.to_ascii_lowercase()).collect();
    let d = dbcharconv::decode_bytes(&e);
    if d != low { return Err(format!("{:?} is encoded as {:?}, which decodes to {:?}", t, e, d)); }
    for tail in [vec![0u8, 0], vec![0, 0, 0]] {
        let mut z = e.clone();
        z.extend(&tail);
        ctx.transitions += 1;
        let d = dbcharconv::decode_bytes(&z);
        if d != low { return Err(format!("{:?} followed by the terminator {:?} decodes to {:?}", t, tail, d)); }
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21", level: "model_checking",
        rule: "byte encoding: every Unicode scalar value alone and between two letters, every text of up to 3 (thorough 4) characters over 27 representative ones, every length to 300 (thorough 5000), and decoding of every byte string of up to 2 bytes (thorough 3) plus every pair of bytes behind a lead byte, compared with UTF-8 validity; double-byte encoding: every text of up to 3 (thorough 4) supported characters in both cases, with and without terminators, and every length to 300. states = distinct texts or byte strings, transitions = encode/decode executions.",
        assumptions: &["NUL stands for the end of a double-byte text, so texts holding NUL are outside of the double-byte part.",
            "Characters other than letters, blank and underscore are not supported by the double-byte encoding."],
        run: |ctx: &mut Ctx| {
            for blk in 0..0x1100u32 {
                ctx.case(|| format!("characters U+{:X} to U+{:X}", blk * 256, blk * 256 + 255), |ctx| {
                    for u in blk * 256..blk * 256 + 256 {
                        if let Some(c) = char::from_u32(u) {
                            ctx.states.add(h64(&(0, u)));
                            text_round(&c.to_string(), ctx)?;
                            text_round(&format!("a{}b", c), ctx)?;
                        }
                    }
                    Ok(())
                });
            }
            let depth = ctx.by(3usize, 4);
            for a in 0..CHARS.len() * CHARS.len() {
                ctx.case(|| format!("texts starting with {:?} {:?}", CHARS[a / CHARS.len()], CHARS[a % CHARS.len()]), |ctx| {
                    let two: String = [CHARS[a / CHARS.len()], CHARS[a % CHARS.len()]].iter().collect();
                    text_round(&two, ctx)?;
                    for c in CHARS {
                        let t = format!("{}{}", two, c);
                        text_round(&t, ctx)?;
                        ctx.states.add(h64(&(1, &t)));
                        if depth > 3 { for d in CHARS { let t = format!("{}{}", t, d); ctx.states.add(h64(&(1, &t))); text_round(&t, ctx)?; } }
                    }
                    Ok(())
                });
            }
            let longest = ctx.by(300usize, 5000);
            for n in 0..=longest {
                ctx.case(|| format!("text of {} characters", n), |ctx| {
                    for k in 0..4 {
                        let t: String = (0..n).map(|i| CHARS[(i * (k + 1) + k * 5) % CHARS.len()]).collect();
                        ctx.states.add(h64(&(2, n, k)));
                        text_round(&t, ctx)?;
                    }
                    Ok(())
                });
            }
            ctx.case(|| "undecodable bytes are told from decodable ones".into(), |_| {
                let bad = fm_string_decrypt(&[0xFF ^ 0x5A]);
                if bad.is_empty() || bad.chars().any(|c| c == '\u{fffd}') { Err(format!("an undecodable byte is reported as {:?}", bad)) } else { Ok(()) }
            });
            for a in 0..256u32 {
                ctx.case(|| format!("byte strings starting with {:#x}", a), |ctx| {
                    let bad = fm_string_decrypt(&[0xFF ^ 0x5A]);
                    bytes_decode(&[], &bad, ctx)?;
                    bytes_decode(&[a as u8], &bad, ctx)?;
                    for b in 0..256u32 {
                        ctx.states.add(h64(&(3, a, b)));
                        bytes_decode(&[a as u8, b as u8], &bad, ctx)?;
                        bytes_decode(&[0x5A ^ b'x', a as u8, b as u8, 0x5A ^ b'y'], &bad, ctx)?;
                        // lead byte of a three-byte character, and of a four-byte one
                        bytes_decode(&[0x5A ^ 0xE2, a as u8, b as u8], &bad, ctx)?;
                        bytes_decode(&[0x5A ^ 0xF0, 0x5A ^ 0x9F, a as u8, b as u8], &bad, ctx)?;
                        if !ctx.quick() { for c in 0..256u32 { bytes_decode(&[a as u8, b as u8, c as u8], &bad, ctx)?; } }
                    }
                    Ok(())
                });
            }
            let s = supported();
            for a in 0..s.len() * s.len() {
                let s = &s;
                ctx.case(|| format!("double-byte texts starting with {:?} {:?}", s[a / s.len()], s[a % s.len()]), |ctx| {
                    let two: String = [s[a / s.len()], s[a % s.len()]].iter().collect();
                    double_round("", ctx)?;
                    double_round(&two[..1], ctx)?;
                    double_round(&two, ctx)?;
                    for c in s {
                        let t = format!("{}{}", two, c);
                        ctx.states.add(h64(&(4, &t)));
                        double_round(&t, ctx)?;
                        if !ctx.quick() { for d in s { double_round(&format!("{}{}", t, d), ctx)?; } }
                    }
                    Ok(())
                });
            }
            for n in 0..=300usize {
                let s = &s;
                ctx.case(|| format!("double-byte text of {} characters", n), |ctx| {
                    for k in 0..6 {
                        ctx.states.add(h64(&(5, n, k)));
                        double_round(&(0..n).map(|i| s[(i * (k + 1) + 9 * k) % s.len()]).collect::<String>(), ctx)?;
                    }
                    Ok(())
                });
            }
            ctx.case(|| "distinct supported characters have distinct codes".into(), |ctx| {
                let mut seen = BTreeSet::new();
                for c in supported() {
                    let e = dbcharconv::encode_char(c);
                    ctx.transitions += 2;
                    if e == (0, 0) { return Err(format!("{:?} has no code", c)); }
                    if !c.is_ascii_uppercase() && !seen.insert(e) { return Err(format!("{:?} shares its code {:?}", c, e)); }
                    if dbcharconv::decode_char(e.0, e.1) != c.to_ascii_lowercase() { return Err(format!("{:?} does not decode back", c)); }
                }
                Ok(())
            });
        },
    }
}

// ---------------------------------------------------------------------------- C22

#[derive(Clone, Debug, PartialEq)]
pub enum PathOp { None, Push(usize), Pop }
/// One chunk: its bytes and what it says.
#[derive(Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>, pub kind: ChunkType, pub code: u16, pub key: Option<u16>, pub seg: Option<u8>,
    pub data: Option<(usize, usize)>, pub refd: Option<(usize, usize)>, pub path: PathOp, pub delayed: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill { Count, Byte(u8) }
impl Fill { fn at(self, i: usize) -> u8 { match self { Fill::Count => (i * 7 + 3) as u8, Fill::Byte(b) => b } } }

/// Chunk layouts, written down independently of the decoder.
/// `k`: key or directory number bytes (as given), `n`: data length where the chunk carries one,
/// `r`: length of the reference where the chunk carries one.
pub fn enc(op: u8, k: [u8; 2], n: usize, r: usize, fill: Fill, delayed: bool) -> Option<Enc> {
    let mut b = vec![op | if delayed { 0xC0 } else { 0 }];
    let key1 = Some(k[0] as u16);
    let key2 = Some(path_value(k[0], k[1]) as u16);
    let mut e = Enc { bytes: vec![], kind: ChunkType::DataSimple, code: op as u16, key: None, seg: None, data: None, refd: None, path: PathOp::None, delayed };
    let data = |b: &mut Vec<u8>, e: &mut Enc, n: usize| {
        e.data = Some((b.len(), b.len() + n));
        for i in 0..n { b.push(fill.at(i)); }
    };
    let refs = |b: &mut Vec<u8>, e: &mut Enc, n: usize| {
        e.refd = Some((b.len(), b.len() + n));
        for i in 0..n { b.push(fill.at(i + 11)); }
    };
    let len2 = |b: &mut Vec<u8>, n: usize| { b.push((n / 256) as u8); b.push((n % 256) as u8); };
    let fixed = |op: u8, base: u8| -> usize { match op - base { 0 => 1, i => 2 * i as usize } };
    match op {
        0x00 => { e.data = Some((1, 1)); b.push(0); }
        0x01..=0x05 => { e.kind = ChunkType::RefSimple; e.key = key1; b.push(k[0]); data(&mut b, &mut e, fixed(op, 1)); }
        0x06 => { if n > 255 { return None; } e.kind = ChunkType::RefSimple; e.key = key1; b.push(k[0]); b.push(n as u8); data(&mut b, &mut e, n); }
        0x07 => { e.kind = ChunkType::DataSegment; e.seg = Some(k[0]); b.push(k[0]); len2(&mut b, n); data(&mut b, &mut e, n); }
        0x08 => data(&mut b, &mut e, 2),
        0x09..=0x0D => { e.kind = ChunkType::RefSimple; e.key = key2; b.extend(&k); data(&mut b, &mut e, fixed(op, 9)); }
        0x0E if k[0] == 0xFF => { e.data = Some((1, 7)); b.push(0xFF); for i in 0..5 { b.push(fill.at(i)); } }
        0x0E => { if n > 255 { return None; } e.kind = ChunkType::RefSimple; e.key = key2; b.extend(&k); b.push(n as u8); data(&mut b, &mut e, n); }
        0x0F if k[0] == 0x80 => { e.kind = ChunkType::DataSegment; e.seg = Some(k[1]); b.push(0x80); b.push(k[1]); len2(&mut b, n); data(&mut b, &mut e, n); }
        0x0F => { e.kind = ChunkType::RefSimple; e.key = key2; b.extend(&k); len2(&mut b, n); data(&mut b, &mut e, n); }
        0x10 => data(&mut b, &mut e, 3),
        0x11..=0x15 => data(&mut b, &mut e, 3 + fixed(op, 0x11)),
        0x16 => { if n > 255 { return None; } e.kind = ChunkType::RefLong; refs(&mut b, &mut e, 3); b.push(n as u8); data(&mut b, &mut e, n); }
        0x17 => { e.kind = ChunkType::RefLong; refs(&mut b, &mut e, 3); len2(&mut b, n); data(&mut b, &mut e, n); }
        0x1B if n == 0 => { e.kind = ChunkType::RefSimple; e.key = key1; b.push(0); b.push(k[0]); data(&mut b, &mut e, 4); }
        0x19 | 0x1A | 0x1B | 0x1C | 0x1D => {
            if n > 255 { return None; }
            b.push(n as u8);
            data(&mut b, &mut e, n);
            for i in 0..fixed(op, 0x19) { b.push(fill.at(n + i)); }
        }
        0x1E => { if n > 255 || r > 255 { return None; } e.kind = ChunkType::RefLong; b.push(r as u8); refs(&mut b, &mut e, r); b.push(n as u8); data(&mut b, &mut e, n); }
        0x1F => { if r > 255 { return None; } e.kind = ChunkType::RefLong; b.push(r as u8); refs(&mut b, &mut e, r); len2(&mut b, n); data(&mut b, &mut e, n); }
        0x20 if k[0] == 0xFE => { e.kind = ChunkType::PathPush; b.push(0xFE); data(&mut b, &mut e, 8); e.path = PathOp::Push(fill.at(0) as usize); }
        0x20 => { e.kind = ChunkType::PathPush; e.data = Some((1, 2)); b.push(k[0]); e.path = PathOp::Push(k[0] as usize); }
        0x23 => { if n > 255 { return None; } b.push(n as u8); data(&mut b, &mut e, n); }
        0x28 => { e.kind = ChunkType::PathPush; e.data = Some((1, 3)); b.extend(&k); e.path = PathOp::Push(path_value(k[0], k[1])); }
        0x30 => { e.kind = ChunkType::PathPush; e.data = Some((1, 4)); b.extend(&k); b.push(fill.at(0)); e.path = PathOp::Push(0); }
        0x38 => {
            if n > 255 || n < 2 { return None; }
            e.kind = ChunkType::PathPush;
            b.push(n as u8);
            e.data = Some((2, 4));
            b.extend(&k);
            for i in 2..n { b.push(fill.at(i)); }
            e.path = PathOp::Push(path_value(k[0], k[1]));
        }
        0x3D | 0x40 => { if op == 0x40 && delayed { return None; } e.kind = ChunkType::PathPop; e.path = PathOp::Pop; }
        0x80 => { if delayed { return None; } e.kind = ChunkType::Noop; }
        _ => return None,
    }
    e.bytes = b;
    Some(e)
}

/// Decode the chunk expected at `off` and compare everything it says; the path and offset move on.
fn expect(buf: &[u8], off: &mut usize, path: &mut Vec<String>, model: &mut Vec<String>, e: &Enc, local: usize) -> Result<(), String> {
    let start = *off;
    let c = get_chunk_from_code(buf, off, path, local).map_err(|m| format!("chunk {} is rejected: {}", brief(&e.bytes), m))?;
    match e.path { PathOp::Push(n) => model.push(n.to_string()), PathOp::Pop => { model.pop(); } PathOp::None => {} }
    if e.delayed { model.pop(); }
    let bad = |what: &str, got: String, want: String| Err(format!("chunk {}: {} is {} instead of {}", brief(&e.bytes), what, got, want));
    if *off != start + e.bytes.len() { return bad("its length", (*off - start).to_string(), e.bytes.len().to_string()); }
    if c.ctype != e.kind { return bad("its kind", format!("{:?}", c.ctype), format!("{:?}", e.kind)); }
    if c.code != e.code { return bad("its code", c.code.to_string(), e.code.to_string()); }
    if c.ref_simple != e.key { return bad("its key", format!("{:?}", c.ref_simple), format!("{:?}", e.key)); }
    if c.segment_idx != e.seg { return bad("its segment", format!("{:?}", c.segment_idx), format!("{:?}", e.seg)); }
    let want = e.data.map(|(a, b)| &e.bytes[a..b]);
    if c.data != want { return bad("its data", format!("{:?}", c.data.map(brief)), format!("{:?}", want.map(brief))); }
    let want = e.refd.map(|(a, b)| &e.bytes[a..b]);
    if c.ref_data != want { return bad("its reference", format!("{:?}", c.ref_data.map(brief)), format!("{:?}", want.map(brief))); }
    if path != model || &c.path != model { return bad("the path", format!("{:?}/{:?}", path, c.path), format!("{:?}", model)); }
    Ok(())
}
fn brief(b: &[u8]) -> String {
    let s: Vec<String> = b.iter().take(12).map(|x| format!("{:02x}", x)).collect();
    format!("[{}{}]({} bytes)", s.join(" "), if b.len() > 12 { " .." } else { "" }, b.len())
}

/// One chunk alone: at several offsets, at the very end of the buffer and with more behind it, at several depths.
fn alone(ctx: &mut Ctx, e: &Enc) -> Result<(), String> {
    ctx.states.add(h64(&e.bytes));
    // the independent reader of C25 agrees with the layouts
    if !e.delayed && e.bytes[0] != 0x38 {
        let d = super::props_asm::dec(&e.bytes)?;
        let data = e.data.map(|(a, b)| e.bytes[a..b].to_vec()).unwrap_or_default();
        let push = if let PathOp::Push(n) = e.path { Some(n) } else { None };
        assert!(d.len == e.bytes.len() && d.data == data && d.push == push && d.pop == (e.path == PathOp::Pop) && d.key == e.key.map(|k| k as usize)
            && d.refd == e.refd.map(|(a, b)| e.bytes[a..b].to_vec()), "independent reader: {:?}", e);
    }
    for (pre, post, depth) in [(0usize, 8usize, 0usize), (20, 0, 1), (4116, 3, 3)] {
        if pre > 20 && e.bytes.len() > 400 { continue; }
        let mut buf = vec![0x41u8; pre];
        buf.extend(&e.bytes);
        buf.extend(vec![0x42u8; post]);
        if buf.len() < 2 { buf.push(0); }
        let mut off = pre;
        let mut path: Vec<String> = (0..depth).map(|i| (i + 5).to_string()).collect();
        let mut model = path.clone();
        expect(&buf, &mut off, &mut path, &mut model, e, if pre > 4096 { 4096 } else { 0 })?;
        ctx.transitions += 1;
    }
    Ok(())
}

const LEN1: &[u8] = &[0x06, 0x0E, 0x16, 0x19, 0x1A, 0x1B, 0x1C, 0x1D, 0x23, 0x38];
const LEN2: &[u8] = &[0x07, 0x0F, 0x17, 0x1F];
const FIXED: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x09, 0x0A, 0x0B, 0x0C, 0x0D, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x20, 0x28, 0x30, 0x3D, 0x40, 0x80];
const FILLS: [Fill; 5] = [Fill::Count, Fill::Byte(0xFF), Fill::Byte(0x80), Fill::Byte(0x00), Fill::Byte(0xFE)];

pub fn templates() -> Vec<Enc> {
    let f = Fill::Count;
    let mut v: Vec<Option<Enc>> = vec![];
    for d in [false, true] {
        for op in [0x00u8, 0x01, 0x02, 0x03, 0x05, 0x08, 0x09, 0x0B, 0x10, 0x11, 0x12, 0x15] {
            if d && ![0x00, 0x01, 0x03, 0x12].contains(&op) { continue; }
            v.push(enc(op, [7, 9], 0, 0, f, d));
        }
        for (op, k, n, r) in [(0x06u8, [16u8, 0u8], 3usize, 0usize), (0x07, [4, 0], 5, 0), (0x0E, [129, 1], 2, 0), (0x0E, [0xFF, 0], 0, 0), (0x0F, [0x80, 3], 4, 0),
            (0x0F, [0x81, 3], 1, 0), (0x16, [0, 0], 2, 0), (0x17, [0, 0], 2, 0), (0x19, [0, 0], 2, 0), (0x1A, [0, 0], 1, 0), (0x1B, [3, 0], 0, 0),
            (0x1B, [0, 0], 2, 0), (0x1D, [0, 0], 0, 0), (0x1E, [0, 0], 2, 3), (0x1F, [0, 0], 3, 2), (0x23, [0, 0], 2, 0)] {
            if d && ![0x06, 0x07, 0x1E].contains(&op) { continue; }
            v.push(enc(op, k, n, r, f, d));
        }
        for (op, k, n) in [(0x20u8, [3u8, 0u8], 0usize), (0x20, [0xFE, 0], 0), (0x28, [0x81, 44], 0), (0x28, [0xFC, 5], 0), (0x30, [0xD0, 1], 0), (0x38, [0x80, 9], 2), (0x38, [0x85, 1], 4), (0x3D, [0, 0], 0), (0x40, [0, 0], 0), (0x80, [0, 0], 0)] {
            if d && ![0x20, 0x3D].contains(&op) { continue; }
            v.push(enc(op, k, n, 0, f, d));
        }
    }
    v.into_iter().flatten().collect()
}

pub fn c22() -> Prop {
    Prop {
        id: "C22", level: "model_checking",
        rule: "single chunks: every documented opcode (with and without the closing flag) x every key byte or key pair x every one-byte length (quick: keys and lengths paired with 5 contents; thorough: all pairs) x every two-byte length (quick: 0..=1100, multiples of 251 and the ends; thorough: all 65536) x 5 contents, at 3 offsets and depths; sequences: every sequence of up to 3 (thorough 4) of the 60 chunk templates from three starting paths, comparing kind, key, data, reference, segment, path and offset after each chunk. states = distinct chunks and chunk sequences, transitions = chunks decoded.",
        assumptions: &["Chunks with the closing flag report the path after the directory is closed, as the decoder documents by its code.",
            "Opcodes the decoder does not list are outside of the property."],
        run: |ctx: &mut Ctx| {
            for &op in FIXED {
                for k0 in 0..256usize {
                    for d in [false, true] {
                        ctx.case(|| format!("opcode {:#x}{} key {:#x} xx", op, if d { " closing" } else { "" }, k0), |ctx| {
                            let two = matches!(op, 0x09..=0x0D | 0x28 | 0x30);
                            for k1 in 0..if two { 256usize } else { 1 } {
                                for f in FILLS {
                                    if two && f != Fill::Count && k1 % 37 != 0 { continue; }
                                    if let Some(e) = enc(op, [k0 as u8, k1 as u8], 0, 0, f, d) { alone(ctx, &e)?; }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
            for &op in LEN1 {
                for n in 0..256usize {
                    for d in [false, true] {
                        ctx.case(|| format!("opcode {:#x}{} length {}", op, if d { " closing" } else { "" }, n), |ctx| {
                            for f in FILLS {
                                for k0 in 0..256usize {
                                    let few = [0, 1, 16, 0x7f, 0x80, 0xfe, 0xff].contains(&k0);
                                    if ctx.quick() && !(few || f == Fill::Count && (k0 + n) % 8 == 0) { continue; }
                                    if let Some(e) = enc(op, [k0 as u8, (255 - k0) as u8], n, 0, f, d) { alone(ctx, &e)?; }
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
            for k0 in 0..256usize {
                for op in [0x0Eu8, 0x0F, 0x38] {
                    ctx.case(|| format!("opcode {:#x} key {:#x} xx", op, k0), |ctx| {
                        for k1 in 0..256usize { for n in [2usize, 3] { if let Some(e) = enc(op, [k0 as u8, k1 as u8], n, 0, Fill::Count, false) { alone(ctx, &e)?; } } }
                        Ok(())
                    });
                }
            }
            for r in 0..256usize {
                for n0 in 0..16usize {
                    ctx.case(|| format!("opcodes 0x1e and 0x1f, reference of {} and {}.. bytes", r, n0 * 16), |ctx| {
                        for n in n0 * 16..n0 * 16 + 16 {
                            for (i, f) in FILLS.iter().enumerate() {
                                if ctx.quick() && i > 0 && (r + n) % 5 != i { continue; }
                                for d in [false, true] {
                                    for op in [0x1Eu8, 0x1F] { if let Some(e) = enc(op, [0, 0], n, r, *f, d) { alone(ctx, &e)?; } }
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
            for blk in 0..1024usize {
                ctx.case(|| format!("two-byte lengths {}..", blk * 64), |ctx| {
                    for n in blk * 64..blk * 64 + 64 {
                        if ctx.quick() && !(n <= 1100 || n % 251 == 0 || n > 65530 || (n % 4096) < 2) { continue; }
                        for &op in LEN2 {
                            for f in if n % 16 == 0 || n < 300 { &FILLS[..] } else { &FILLS[..1] } {
                                for k in [[4u8, 5u8], [0x80, 6], [0xFC, 0xFF]] {
                                    if op == 0x17 && k[0] != 4 || op == 0x1F && k[0] != 4 { continue; }
                                    if let Some(e) = enc(op, k, n, 5, *f, n % 2 == 1) { alone(ctx, &e)?; }
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
            let ts = templates();
            let depth = ctx.by(3usize, 4);
            for a in 0..ts.len() {
                for b in 0..ts.len() {
                    let ts = &ts;
                    ctx.case(|| format!("chunk sequences starting with {} {}", brief(&ts[a].bytes), brief(&ts[b].bytes)), |ctx| {
                        for base in 0..3usize {
                            let mut buf = vec![0x41u8; base];
                            let start: Vec<String> = (0..base * 2).map(|i| (i + 60).to_string()).collect();
                            let (mut path, mut model) = (start.clone(), start);
                            let mut off = base;
                            buf.extend(&ts[a].bytes);
                            buf.extend(&ts[b].bytes);
                            let stem = buf.len();
                            buf.extend([0u8; 2]);
                            expect(&buf, &mut off, &mut path, &mut model, &ts[a], 0)?;
                            expect(&buf, &mut off, &mut path, &mut model, &ts[b], 0)?;
                            buf.truncate(stem);
                            extend(ctx, ts, &mut buf, off, &path, &model, depth - 2, h64(&(a, b, base)))?;
                        }
                        Ok(())
                    });
                }
            }
        },
    }
}

fn extend(ctx: &mut Ctx, ts: &[Enc], buf: &mut Vec<u8>, off: usize, path: &Vec<String>, model: &Vec<String>, left: usize, id: u64) -> Result<(), String> {
    ctx.states.add(id);
    if left == 0 { return Ok(()); }
    for (i, e) in ts.iter().enumerate() {
        let n = buf.len();
        buf.extend(&e.bytes);
        let (mut o, mut p, mut m) = (off, path.clone(), model.clone());
        expect(buf, &mut o, &mut p, &mut m, e, 0)?;
        ctx.transitions += 1;
        extend(ctx, ts, buf, o, &p, &m, left - 1, h64(&(id, i)))?;
        buf.truncate(n);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> { vec![c20(), c21(), c22()] }

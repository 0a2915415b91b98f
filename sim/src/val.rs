//! Independent model of the Aldrin value format: generator, encoder for both container encodings
//! and a decoder to a canonical tree. Shares no code with aldrin-core.

use crate::choice::Choices;
use aldrin_core::message::{Message, MessageOps};
use aldrin_core::SerializedValue;
use bytes::BytesMut;
use std::cell::Cell;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    None,
    Some(Box<V>),
    Bool(bool),
    /// Kind byte (3..=10) plus value.
    Int(u8, i128),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Uuid(Vec<u8>),
    ObjId(Vec<u8>),
    SvcId(Vec<u8>),
    Vec(Vec<V>),
    Bytes(Vec<u8>),
    /// Key type 0..=9 (u8 i8 u16 i16 u32 i32 u64 i64 string uuid).
    Map(u8, Vec<(K, V)>),
    Set(u8, Vec<K>),
    Struct(Vec<(u32, V)>),
    Enum(u32, Box<V>),
    Sender(Vec<u8>),
    Receiver(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    Int(i128),
    Bytes(Vec<u8>),
}

fn put_varint(out: &mut Vec<u8>, v: u64, n: usize) {
    let le = v.to_le_bytes();
    let len = (0..n).rev().find(|&i| le[i] != 0).map(|i| i + 1).unwrap_or(0);
    // One byte if the value fits without colliding with the length markers.
    if len <= 1 && le[0] <= 255 - n as u8 {
        out.push(le[0]);
    } else {
        let len = len.max(1);
        out.push(255 - n as u8 + len as u8);
        out.extend_from_slice(&le[..len]);
    }
}

fn zigzag(v: i128, bits: u32) -> u64 {
    let v = v as i64;
    let z = ((v << 1) ^ (v >> 63)) as u64;
    if bits == 64 {
        z
    } else {
        z & ((1u64 << bits) - 1)
    }
}

fn unzigzag(v: u64) -> i128 {
    (((v >> 1) as i64) ^ -((v & 1) as i64)) as i128
}

fn put_key(out: &mut Vec<u8>, kt: u8, k: &K) {
    match (kt, k) {
        (0, K::Int(v)) => out.push(*v as u8),
        (1, K::Int(v)) => out.push(*v as i8 as u8),
        (2, K::Int(v)) => put_varint(out, *v as u64, 2),
        (3, K::Int(v)) => put_varint(out, zigzag(*v, 16), 2),
        (4, K::Int(v)) => put_varint(out, *v as u64, 4),
        (5, K::Int(v)) => put_varint(out, zigzag(*v, 32), 4),
        (6, K::Int(v)) => put_varint(out, *v as u64, 8),
        (7, K::Int(v)) => put_varint(out, zigzag(*v, 64), 8),
        (8, K::Bytes(b)) => {
            put_varint(out, b.len() as u64, 4);
            out.extend_from_slice(b);
        }
        (9, K::Bytes(b)) => out.extend_from_slice(b),
        _ => unreachable!(),
    }
}

/// Encodes `v`; `v2(depth)` decides per container whether the newer encoding is used.
pub fn encode(v: &V, v2: &mut dyn FnMut() -> bool, out: &mut Vec<u8>) {
    match v {
        V::None => out.push(0),
        V::Some(v) => {
            out.push(1);
            encode(v, v2, out);
        }
        V::Bool(b) => out.extend_from_slice(&[2, *b as u8]),
        V::Int(kind, v) => {
            out.push(*kind);
            match kind {
                3 => out.push(*v as u8),
                4 => out.push(*v as i8 as u8),
                5 => put_varint(out, *v as u64, 2),
                6 => put_varint(out, zigzag(*v, 16), 2),
                7 => put_varint(out, *v as u64, 4),
                8 => put_varint(out, zigzag(*v, 32), 4),
                9 => put_varint(out, *v as u64, 8),
                10 => put_varint(out, zigzag(*v, 64), 8),
                _ => unreachable!(),
            }
        }
        V::F32(b) => {
            out.push(11);
            out.extend_from_slice(&b.to_le_bytes());
        }
        V::F64(b) => {
            out.push(12);
            out.extend_from_slice(&b.to_le_bytes());
        }
        V::Str(s) => {
            out.push(13);
            put_varint(out, s.len() as u64, 4);
            out.extend_from_slice(s);
        }
        V::Uuid(b) => {
            out.push(14);
            out.extend_from_slice(b);
        }
        V::ObjId(b) => {
            out.push(15);
            out.extend_from_slice(b);
        }
        V::SvcId(b) => {
            out.push(16);
            out.extend_from_slice(b);
        }
        V::Vec(vs) => {
            if v2() {
                out.push(43);
                for v in vs {
                    out.push(1);
                    encode(v, v2, out);
                }
                out.push(0);
            } else {
                out.push(17);
                put_varint(out, vs.len() as u64, 4);
                for v in vs {
                    encode(v, v2, out);
                }
            }
        }
        V::Bytes(b) => {
            if v2() {
                out.push(44);
                let mut rest = &b[..];
                // Chunks of one byte, halves, or 256 bytes, or the rest in one.
                let how = b.first().map(|b| b / 4 % 4);
                while !rest.is_empty() {
                    let n = match how {
                        Some(1) => rest.len().div_ceil(2),
                        Some(2) => rest.len().min(256),
                        Some(3) => rest.len(),
                        _ if b.len() < 1000 && v2() => 1,
                        _ => rest.len(),
                    };
                    put_varint(out, n as u64, 4);
                    out.extend_from_slice(&rest[..n]);
                    rest = &rest[n..];
                }
                out.push(0);
            } else {
                out.push(18);
                put_varint(out, b.len() as u64, 4);
                out.extend_from_slice(b);
            }
        }
        V::Map(kt, es) => {
            if v2() {
                out.push(45 + kt);
                for (k, v) in es {
                    out.push(1);
                    put_key(out, *kt, k);
                    encode(v, v2, out);
                }
                out.push(0);
            } else {
                out.push(19 + kt);
                put_varint(out, es.len() as u64, 4);
                for (k, v) in es {
                    put_key(out, *kt, k);
                    encode(v, v2, out);
                }
            }
        }
        V::Set(kt, es) => {
            if v2() {
                out.push(55 + kt);
                for k in es {
                    out.push(1);
                    put_key(out, *kt, k);
                }
                out.push(0);
            } else {
                out.push(29 + kt);
                put_varint(out, es.len() as u64, 4);
                for k in es {
                    put_key(out, *kt, k);
                }
            }
        }
        V::Struct(fs) => {
            if v2() {
                out.push(65);
                for (id, v) in fs {
                    out.push(1);
                    put_varint(out, *id as u64, 4);
                    encode(v, v2, out);
                }
                out.push(0);
            } else {
                out.push(39);
                put_varint(out, fs.len() as u64, 4);
                for (id, v) in fs {
                    put_varint(out, *id as u64, 4);
                    encode(v, v2, out);
                }
            }
        }
        V::Enum(id, v) => {
            out.push(40);
            put_varint(out, *id as u64, 4);
            encode(v, v2, out);
        }
        V::Sender(b) => {
            out.push(41);
            out.extend_from_slice(b);
        }
        V::Receiver(b) => {
            out.push(42);
            out.extend_from_slice(b);
        }
    }
}

pub struct Decoded {
    pub value: V,
    /// Whether any container used the 1.20 encoding.
    pub uses_v2: bool,
}

struct Dec<'a> {
    b: &'a [u8],
    v2: bool,
}

type R<T> = Result<T, ()>;

impl Dec<'_> {
    fn byte(&mut self) -> R<u8> {
        let (&f, rest) = self.b.split_first().ok_or(())?;
        self.b = rest;
        Ok(f)
    }

    fn take(&mut self, n: usize) -> R<Vec<u8>> {
        if self.b.len() < n {
            return Err(());
        }
        let (a, rest) = self.b.split_at(n);
        self.b = rest;
        Ok(a.to_vec())
    }

    fn varint(&mut self, n: usize) -> R<u64> {
        let first = self.byte()?;
        if first as usize > 255 - n {
            let len = first as usize + n - 255;
            let bytes = self.take(len)?;
            let mut le = [0; 8];
            le[..len].copy_from_slice(&bytes);
            Ok(u64::from_le_bytes(le))
        } else {
            Ok(first as u64)
        }
    }

    fn key(&mut self, kt: u8) -> R<K> {
        Ok(match kt {
            0 => K::Int(self.byte()? as i128),
            1 => K::Int(self.byte()? as i8 as i128),
            2 => K::Int(self.varint(2)? as i128),
            3 => K::Int(unzigzag(self.varint(2)?)),
            4 => K::Int(self.varint(4)? as i128),
            5 => K::Int(unzigzag(self.varint(4)?)),
            6 => K::Int(self.varint(8)? as i128),
            7 => K::Int(unzigzag(self.varint(8)?)),
            8 => {
                let n = self.varint(4)? as usize;
                let s = self.take(n)?;
                std::str::from_utf8(&s).map_err(|_| ())?;
                K::Bytes(s)
            }
            9 => K::Bytes(self.take(16)?),
            _ => return Err(()),
        })
    }

    fn value(&mut self, depth: u32) -> R<V> {
        if depth > 32 {
            return Err(());
        }
        let kind = self.byte()?;
        Ok(match kind {
            0 => V::None,
            1 => V::Some(Box::new(self.value(depth + 1)?)),
            2 => V::Bool(self.byte()? != 0),
            3 => V::Int(3, self.byte()? as i128),
            4 => V::Int(4, self.byte()? as i8 as i128),
            5 => V::Int(5, self.varint(2)? as i128),
            6 => V::Int(6, unzigzag(self.varint(2)?)),
            7 => V::Int(7, self.varint(4)? as i128),
            8 => V::Int(8, unzigzag(self.varint(4)?)),
            9 => V::Int(9, self.varint(8)? as i128),
            10 => V::Int(10, unzigzag(self.varint(8)?)),
            11 => V::F32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            12 => V::F64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            13 => {
                let n = self.varint(4)? as usize;
                let s = self.take(n)?;
                std::str::from_utf8(&s).map_err(|_| ())?;
                V::Str(s)
            }
            14 => V::Uuid(self.take(16)?),
            15 => V::ObjId(self.take(32)?),
            16 => V::SvcId(self.take(64)?),
            17 => {
                let n = self.varint(4)?;
                let mut vs = Vec::new();
                for _ in 0..n {
                    vs.push(self.value(depth + 1)?);
                }
                V::Vec(vs)
            }
            43 => {
                self.v2 = true;
                let mut vs = Vec::new();
                while self.more()? {
                    vs.push(self.value(depth + 1)?);
                }
                V::Vec(vs)
            }
            18 => {
                let n = self.varint(4)? as usize;
                V::Bytes(self.take(n)?)
            }
            44 => {
                self.v2 = true;
                let mut b = Vec::new();
                loop {
                    let n = self.varint(4)? as usize;
                    if n == 0 {
                        break;
                    }
                    b.extend(self.take(n)?);
                }
                V::Bytes(b)
            }
            19..=28 | 45..=54 => {
                let new = kind >= 45;
                let kt = if new { kind - 45 } else { kind - 19 };
                let mut es = Vec::new();
                if new {
                    self.v2 = true;
                    while self.more()? {
                        let k = self.key(kt)?;
                        es.push((k, self.value(depth + 1)?));
                    }
                } else {
                    for _ in 0..self.varint(4)? {
                        let k = self.key(kt)?;
                        es.push((k, self.value(depth + 1)?));
                    }
                }
                es.sort();
                V::Map(kt, es)
            }
            29..=38 | 55..=64 => {
                let new = kind >= 55;
                let kt = if new { kind - 55 } else { kind - 29 };
                let mut es = Vec::new();
                if new {
                    self.v2 = true;
                    while self.more()? {
                        es.push(self.key(kt)?);
                    }
                } else {
                    for _ in 0..self.varint(4)? {
                        es.push(self.key(kt)?);
                    }
                }
                es.sort();
                V::Set(kt, es)
            }
            39 | 65 => {
                let mut fs = Vec::new();
                if kind == 65 {
                    self.v2 = true;
                    while self.more()? {
                        let id = self.varint(4)? as u32;
                        fs.push((id, self.value(depth + 1)?));
                    }
                } else {
                    for _ in 0..self.varint(4)? {
                        let id = self.varint(4)? as u32;
                        fs.push((id, self.value(depth + 1)?));
                    }
                }
                fs.sort();
                V::Struct(fs)
            }
            40 => {
                let id = self.varint(4)? as u32;
                V::Enum(id, Box::new(self.value(depth + 1)?))
            }
            41 => V::Sender(self.take(16)?),
            42 => V::Receiver(self.take(16)?),
            _ => return Err(()),
        })
    }

    fn more(&mut self) -> R<bool> {
        match self.byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(()),
        }
    }
}

/// Decodes a complete value to its canonical tree (map, set and struct entries sorted).
pub fn decode(b: &[u8]) -> Result<Decoded, ()> {
    let mut d = Dec { b, v2: false };
    let value = d.value(1)?;
    if d.b.is_empty() {
        Ok(Decoded {
            value,
            uses_v2: d.v2,
        })
    } else {
        Err(())
    }
}

/// An integer of the given width, close to where its encoding changes.
fn gen_int(c: &mut Choices, bits: u32, signed: bool) -> i128 {
    let raw: u64 = match c.below(4) {
        0 => c.below(8) as u64,
        1 => 247 + c.below(12) as u64,
        2 => {
            let sh = c.below(bits);
            (1u64 << sh).wrapping_sub(c.below(2) as u64)
        }
        _ => ((c.u32() as u64) << 32) | c.u32() as u64,
    };
    match (bits, signed) {
        (8, false) => raw as u8 as i128,
        (8, true) => raw as i8 as i128,
        (16, false) => raw as u16 as i128,
        (16, true) => raw as i16 as i128,
        (32, false) => raw as u32 as i128,
        (32, true) => raw as i32 as i128,
        (64, false) => raw as i128,
        _ => raw as i64 as i128,
    }
}

const INTS: [(u32, bool); 8] = [
    (8, false),
    (8, true),
    (16, false),
    (16, true),
    (32, false),
    (32, true),
    (64, false),
    (64, true),
];

thread_local! {
    static BIG: Cell<bool> = const { Cell::new(false) };
}

/// Whether this run may use values of 64 KiB and more.
pub fn allow_big(big: bool) {
    BIG.set(big);
}

/// A number of elements, characters or bytes.
fn gen_len(c: &mut Choices, small: u32) -> usize {
    match c.below(64) {
        n if n < 62 || !BIG.get() => c.below(small) as usize,
        62 => [250, 251, 252, 253, 255, 256, 257, 300, 700][c.below(9) as usize],
        _ if c.below(4) == 3 => [65535, 65536, 65540, 70000][c.below(4) as usize],
        _ => c.below(small) as usize,
    }
}

fn gen_str(c: &mut Choices, n: usize) -> Vec<u8> {
    let alphabet = ["abcdefghijklmnopqrstuvwxyz", "aé€😀", "\0 "][c.below(3) as usize];
    let chars: Vec<char> = alphabet.chars().collect();
    let mut s = String::new();
    for i in 0.. {
        let ch = chars[i % chars.len()];
        if s.len() + ch.len_utf8() > n {
            break;
        }
        s.push(ch);
    }
    s.into_bytes()
}

fn gen_id(c: &mut Choices) -> u32 {
    match c.below(4) {
        0 => gen_int(c, 32, false) as u32,
        _ => c.below(300),
    }
}

/// The key `i` of a container with `n` keys. They need not be distinct.
fn gen_key(c: &mut Choices, kt: u8, i: usize, n: usize) -> K {
    match kt {
        // Too many for random ones.
        0..=7 if n > 8 => {
            let (bits, signed) = INTS[kt as usize];
            let raw = (i as u64).wrapping_mul(if i % 2 == 0 { 1 } else { 0x0101_0101_0101_0101 });
            K::Int(match (bits, signed) {
                (8, false) => raw as u8 as i128,
                (8, true) => raw as i8 as i128,
                (16, false) => raw as u16 as i128,
                (16, true) => raw as i16 as i128,
                (32, false) => raw as u32 as i128,
                (32, true) => raw as i32 as i128,
                (64, false) => raw as i128,
                _ => raw as i64 as i128,
            })
        }
        0..=7 => {
            let (bits, signed) = INTS[kt as usize];
            K::Int(gen_int(c, bits, signed))
        }
        8 if n > 8 => K::Bytes(i.to_string().into_bytes()),
        8 => {
            let n = gen_len(c, 5);
            K::Bytes(gen_str(c, n))
        }
        _ => {
            let mut b = if n > 8 { vec![7; 16] } else { gen_bytes(c, 16) };
            b[..4].copy_from_slice(&(i as u32).to_le_bytes());
            K::Bytes(b)
        }
    }
}

/// The elements of a container, all different unless there are a lot.
fn gen_elems(c: &mut Choices, depth: u32) -> Vec<V> {
    let n = gen_len(c, 4);
    if n <= 8 {
        return (0..n).map(|_| gen(c, depth - 1)).collect();
    }
    let a = gen(c, 0);
    let b = gen(c, 0);
    // A long string in each of them is too much.
    let max = if n > 1000 { 4 } else { 300 };
    let short = |v: V| match v {
        V::Str(s) | V::Bytes(s) if s.len() > max => V::None,
        v => v,
    };
    let (a, b) = (short(a), short(b));
    (0..n)
        .map(|i| if i % 3 == 2 { b.clone() } else { a.clone() })
        .collect()
}

fn gen_bytes(c: &mut Choices, n: usize) -> Vec<u8> {
    let a = c.below(256);
    (0..n).map(|i| (a as usize + i * 7) as u8).collect()
}

/// A random well-formed value. Integers favour encoding boundaries.
pub fn gen(c: &mut Choices, depth: u32) -> V {
    let kind = if depth == 0 { c.below(12) } else { c.below(22) };
    match kind {
        0 => V::None,
        1 => V::Bool(c.below(2) == 1),
        2 | 3 | 4 => {
            let k = 3 + c.below(8) as u8;
            let (bits, signed) = INTS[k as usize - 3];
            let v = gen_int(c, bits, signed);
            V::Int(k, v)
        }
        5 => V::F32(c.u32()),
        6 => V::F64(((c.u32() as u64) << 32) | c.u32() as u64),
        7 => {
            let n = match c.below(4) {
                0 => [0, 1, 5, 250, 252, 256, 700][c.below(7) as usize],
                _ => gen_len(c, 8),
            };
            V::Str(gen_str(c, n))
        }
        8 => V::Uuid(gen_bytes(c, 16)),
        9 => {
            if c.below(2) == 0 {
                V::ObjId(gen_bytes(c, 32))
            } else {
                V::SvcId(gen_bytes(c, 64))
            }
        }
        10 => {
            if c.below(2) == 0 {
                V::Sender(gen_bytes(c, 16))
            } else {
                V::Receiver(gen_bytes(c, 16))
            }
        }
        11 => {
            let n = match c.below(4) {
                0 => [0, 1, 3, 252, 300][c.below(5) as usize],
                _ => gen_len(c, 8),
            };
            V::Bytes(gen_bytes(c, n))
        }
        12 => V::Some(Box::new(gen(c, depth - 1))),
        13 | 14 => V::Vec(gen_elems(c, depth)),
        15 | 16 => {
            let kt = c.below(10) as u8;
            let vs = gen_elems(c, depth);
            let n = vs.len();
            let mut es: Vec<(K, V)> = vs
                .into_iter()
                .enumerate()
                .map(|(i, v)| (gen_key(c, kt, i, n), v))
                .collect();
            es.sort();
            es.dedup_by(|a, b| a.0 == b.0);
            V::Map(kt, es)
        }
        17 | 18 => {
            let kt = c.below(10) as u8;
            let n = gen_len(c, 4);
            let mut es: Vec<K> = (0..n).map(|i| gen_key(c, kt, i, n)).collect();
            es.sort();
            es.dedup();
            V::Set(kt, es)
        }
        19 | 20 => {
            let vs = gen_elems(c, depth);
            let n = vs.len();
            let mut fs: Vec<(u32, V)> = vs
                .into_iter()
                .enumerate()
                .map(|(i, v)| (if n > 8 { i as u32 * 3 } else { gen_id(c) }, v))
                .collect();
            fs.sort();
            fs.dedup_by(|a, b| a.0 == b.0);
            V::Struct(fs)
        }
        _ => {
            let id = gen_id(c);
            V::Enum(id, Box::new(gen(c, depth - 1)))
        }
    }
}

/// Wraps arbitrary value bytes without validating them, exactly as the wire parser does.
pub fn raw_value(bytes: &[u8]) -> SerializedValue {
    let total = 4 + 1 + 4 + bytes.len() + 16;
    let mut f = BytesMut::with_capacity(total);
    f.extend_from_slice(&(total as u32).to_le_bytes());
    f.extend_from_slice(&[27]);
    f.extend_from_slice(&(bytes.len() as u32).to_le_bytes());
    f.extend_from_slice(bytes);
    f.extend_from_slice(&[0x11; 16]);
    match Message::deserialize_message(f) {
        Ok(Message::SendItem(m)) => m.value,
        other => panic!("cannot build raw value: {other:?}"),
    }
}

pub fn gen_value(c: &mut Choices, v2_ok: bool, depth: u32) -> SerializedValue {
    let v = match BIG.get() && c.chance(1, 300) {
        true => {
            let n = [65535, 65536, 65537, 70000][c.below(4) as usize];
            let v = match c.below(4) {
                0 => V::Str(gen_str(c, n)),
                _ => V::Bytes(gen_bytes(c, n)),
            };
            match c.below(3) {
                0 => v,
                1 => V::Some(Box::new(v)),
                _ => V::Vec(vec![v, gen(c, 1)]),
            }
        }
        false => gen(c, depth),
    };
    let mut out = Vec::new();
    let mode = if v2_ok { c.below(3) } else { 1 };
    let mut alt = 0u32;
    encode(
        &v,
        &mut || match mode {
            0 => true,
            1 => false,
            _ => {
                alt = alt.wrapping_mul(1664525).wrapping_add(1013904223);
                alt & 0x4000_0000 != 0
            }
        },
        &mut out,
    );
    raw_value(&out)
}

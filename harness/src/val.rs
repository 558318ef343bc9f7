//! Independent model of values of strict types: generation, the specified encoding, a reference
//! decoder, and the reflective notations (`StrictVal`) a value may be written in.

use std::collections::BTreeSet;

use amplify::num::{i1024, u1024};
use indexmap::IndexMap;
use strict_encoding::VariantName;
use strict_types::value::{EnumTag, StrictNum};
use strict_types::StrictVal;

use crate::engine::Src;
use crate::model::*;

/// A value, structured as its type is.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MVal {
    /// little-endian bytes
    Prim(Vec<u8>),
    Char(char),
    /// position of the variant in the definition
    Enum(usize),
    Union(usize, Box<MVal>),
    /// tuples, structures, arrays, lists and sets
    Seq(Vec<MVal>),
    Map(Vec<(MVal, MVal)>),
}

pub fn byte_size(code: u8) -> usize {
    match code {
        0x40 => 1,
        c if c & 0x20 == 0 => (c & 0x1f) as usize,
        c => 16 * ((c & 0x1f) as usize + 2),
    }
}
pub fn is_signed(code: u8) -> bool { (0x41..0x80).contains(&code) }
/// Numbers of up to 8 bytes.
pub fn is_small(code: u8) -> bool { code == 0x40 || ((1..=8).contains(&code) || (0x41..=0x48).contains(&code)) }
/// Primitives the reflection reads back.
pub fn is_readable(code: u8) -> bool { code == 0 || code == 0x40 || (1..=8).contains(&code) || [0x41, 0x42, 0x44, 0x48].contains(&code) }

pub const READABLE: &[u8] = &[1, 0, 2, 3, 4, 5, 6, 7, 8, 0x40, 0x41, 0x42, 0x44, 0x48];
pub const WRITABLE: &[u8] =
    &[1, 0, 2, 3, 4, 5, 6, 7, 8, 0x40, 0x41, 0x42, 0x44, 0x48, 9, 0x10, 0x14, 0x1f, 0x20, 0x22, 0x26, 0x43, 0x45, 0x46, 0x47, 0x49, 0x50, 0x60, 0x62, 0x66];

/// Length prefix, in bytes.
pub fn prefix(max: u64) -> usize {
    match max {
        0..=0xFF => 1,
        0x100..=0xFFFF => 2,
        0x1_0000..=0xFF_FFFF => 3,
        0x100_0000..=0xFFFF_FFFF => 4,
        _ => 8,
    }
}

pub fn is_byte(r: &Ref) -> bool { matches!(r, Ref::Inline(t) if matches!(**t, MTy::Prim(1) | MTy::Prim(0x40))) }
pub fn is_uni(r: &Ref) -> bool { matches!(r, Ref::Inline(t) if **t == MTy::Unicode) }
pub fn char_enum(t: &MTy) -> bool { matches!(t, MTy::Enum(v) if v.iter().all(|x| (32..=127).contains(&x.1))) }
pub fn is_opt(t: &MTy) -> bool {
    matches!(t, MTy::Union(v) if v.len() == 2
        && v.iter().any(|x| x.0 == "none" && x.1 == 0) && v.iter().any(|x| x.0 == "some" && x.1 == 1))
}

/// How the reflection represents a collection of single-byte or character items.
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Text {
    Bytes,
    Unicode,
    /// items are characters of a restricted set
    Chars,
    No,
}

pub struct Vals<'a> {
    pub w: &'a World,
}

impl<'a> Vals<'a> {
    pub fn ty<'b>(&'b self, r: &'b Ref) -> &'b MTy { self.w.resolve(r) }
    pub fn text(&self, r: &Ref) -> Text {
        if is_byte(r) {
            Text::Bytes
        } else if is_uni(r) {
            Text::Unicode
        } else if char_enum(self.ty(r)) {
            Text::Chars
        } else {
            Text::No
        }
    }
    /// Restricted strings: a first character and a list of the rest.
    pub fn rstring<'b>(&'b self, t: &'b MTy) -> Option<(&'b MTy, &'b MTy, u64, u64)> {
        let MTy::Tuple(f) = t else { return None };
        if f.len() != 2 {
            return None;
        }
        let first = self.ty(&f[0]);
        let MTy::List(r, a, b) = self.ty(&f[1]) else { return None };
        let rest = self.ty(r);
        (char_enum(first) && char_enum(rest)).then(|| (first, rest, a.saturating_add(1), b.saturating_add(1)))
    }

    // -------------------------------------------------------------- generation

    fn num(&self, src: &mut Src, code: u8) -> Vec<u8> {
        let n = byte_size(code);
        match src.weighted(&[6, 1, 2, 2, 2]) {
            0 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[0] = src.below(40) as u8;
                }
                v
            }
            1 => vec![0xff; n],
            2 => {
                let mut v = vec![0xff; n];
                if n > 0 {
                    v[n - 1] = 0x7f;
                }
                v
            }
            3 => {
                let mut v = vec![0; n];
                if n > 0 {
                    v[n - 1] = 0x80;
                }
                v
            }
            _ => src.bytes(n),
        }
    }
    pub fn character(&self, src: &mut Src) -> char {
        match src.weighted(&[8, 2, 2, 2, 1]) {
            0 => (32 + src.below(95) as u8) as char,
            1 => (src.below(128) as u8) as char,
            2 => char::from_u32(0x80 + src.below(0x780) as u32).unwrap(),
            3 => char::from_u32(0x4e00 + src.below(0x5000) as u32).unwrap(),
            _ => char::from_u32(0x10000 + src.below(0x100000) as u32).unwrap_or('\u{10ffff}'),
        }
    }
    /// Very many different items of a set (or keys of a map) of unsigned numbers, now and then;
    /// in no particular order.
    fn numerous(&self, src: &mut Src, t: &MTy, a: u64, b: u64, budget: &mut i64) -> Vec<MVal> {
        let MTy::Prim(c @ (3 | 4 | 8 | 16 | 32)) = t else { return vec![] };
        if *budget < 1_000 || src.bool() {
            return vec![];
        }
        let n = (*src.pick(&[255u64, 256, 257, 1000, 65535, 65536, 66000])).max(a).min(b);
        if n < 255 || n as i64 > *budget {
            return vec![];
        }
        *budget -= n as i64;
        let base = src.below(1 << 20);
        (0..n)
            .map(|i| {
                let mut v = vec![0u8; *c as usize];
                v[..3].copy_from_slice(&((base + i * 77) & 0xFF_FFFF).to_le_bytes()[..3]);
                MVal::Prim(v)
            })
            .collect()
    }
    /// Number of items; `cheap` items may make the collection cross the limits of length classes.
    fn count(&self, src: &mut Src, a: u64, b: u64, budget: i64, cheap: bool) -> u64 {
        let left = (budget.max(0) as u64).saturating_add(a);
        let n = match src.weighted(&[6, 4, if cheap { 2 } else { 0 }, 1]) {
            0 => a.saturating_add(src.below(4)),
            1 => a,
            2 => *src.pick(&[255, 256, 254, 300, 1000, 65535, 65536, 66000]),
            _ => b,
        };
        n.max(a).min(b).min(left)
    }
    /// A value of the type; nothing when its minimal size exceeds the budget.
    pub fn gen(&self, src: &mut Src, t: &MTy, budget: &mut i64) -> Option<MVal> {
        *budget -= 1;
        if *budget < 0 {
            return None;
        }
        Some(match t {
            MTy::Prim(c) => MVal::Prim(self.num(src, *c)),
            MTy::Unicode => MVal::Char(self.character(src)),
            MTy::Enum(v) => MVal::Enum(src.usize(0, v.len() - 1)),
            MTy::Union(v) => {
                let i = src.usize(0, v.len() - 1);
                MVal::Union(i, Box::new(self.gen(src, self.ty(&v[i].2), budget)?))
            }
            MTy::Tuple(v) => MVal::Seq(v.iter().map(|r| self.gen(src, self.ty(r), budget)).collect::<Option<_>>()?),
            MTy::Struct(v) => MVal::Seq(v.iter().map(|r| self.gen(src, self.ty(&r.1), budget)).collect::<Option<_>>()?),
            MTy::Array(r, n) => MVal::Seq((0..*n).map(|_| self.gen(src, self.ty(r), budget)).collect::<Option<_>>()?),
            MTy::List(r, a, b) if is_uni(r) => {
                // bounds are about bytes
                let n = self.count(src, *a, *b, *budget, true);
                *budget -= n as i64;
                if *budget < 0 {
                    return None;
                }
                let mut v = vec![];
                let mut left = n as usize;
                let rich = src.below(3) > 0;
                while left > 0 {
                    let c = if rich { self.character(src) } else { 'x' };
                    let c = if c.len_utf8() > left { 'y' } else { c };
                    left -= c.len_utf8();
                    v.push(MVal::Char(c));
                }
                MVal::Seq(v)
            }
            MTy::List(r, a, b) => {
                let cheap = self.text(r) != Text::No || matches!(self.ty(r), MTy::Prim(_) | MTy::Enum(_));
                let n = self.count(src, *a, *b, *budget, cheap);
                if n > 300 && cheap {
                    // large collections repeat a few items
                    *budget -= n as i64;
                    if *budget < 0 {
                        return None;
                    }
                    let few: Vec<MVal> = (0..3).map(|_| self.gen(src, self.ty(r), &mut 10)).collect::<Option<_>>()?;
                    return Some(MVal::Seq((0..n as usize).map(|i| few[i * i % 3].clone()).collect()));
                }
                MVal::Seq((0..n).map(|_| self.gen(src, self.ty(r), budget)).collect::<Option<_>>()?)
            }
            MTy::Set(r, a, b) => {
                let many = self.numerous(src, self.ty(r), *a, *b, budget);
                if !many.is_empty() {
                    return Some(MVal::Seq(many));
                }
                let n = self.count(src, *a, *b, *budget / 4, false);
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                for _ in 0..3 * n + 6 {
                    if v.len() as u64 >= n {
                        break;
                    }
                    let x = self.gen(src, self.ty(r), budget)?;
                    if seen.insert(self.bytes(self.ty(r), &x)) {
                        v.push(x);
                    }
                }
                if (v.len() as u64) < *a {
                    return None;
                }
                MVal::Seq(v)
            }
            MTy::Map(k, r, a, b) => {
                let many = self.numerous(src, self.ty(k), *a, *b, budget);
                if !many.is_empty() {
                    let few: Vec<MVal> = (0..3).map(|_| self.gen(src, self.ty(r), &mut 10)).collect::<Option<_>>()?;
                    return Some(MVal::Map(many.into_iter().enumerate().map(|(i, k)| (k, few[i * i % 3].clone())).collect()));
                }
                let n = self.count(src, *a, *b, *budget / 4, false);
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                for _ in 0..3 * n + 6 {
                    if v.len() as u64 >= n {
                        break;
                    }
                    let x = self.gen(src, self.ty(k), budget)?;
                    if seen.insert(self.bytes(self.ty(k), &x)) {
                        v.push((x, self.gen(src, self.ty(r), budget)?));
                    }
                }
                if (v.len() as u64) < *a {
                    return None;
                }
                MVal::Map(v)
            }
        })
    }

    // -------------------------------------------------------------- specified encoding

    pub fn bytes(&self, t: &MTy, v: &MVal) -> Vec<u8> {
        let mut o = vec![];
        self.enc(t, v, &mut o);
        o
    }
    fn len(max: u64, n: usize, o: &mut Vec<u8>) { o.extend(&(n as u64).to_le_bytes()[..prefix(max)]) }
    pub fn enc(&self, t: &MTy, v: &MVal, o: &mut Vec<u8>) {
        match (t, v) {
            (MTy::Prim(_), MVal::Prim(b)) => o.extend(b),
            (MTy::Unicode, MVal::Char(c)) => o.extend(c.to_string().as_bytes()),
            (MTy::Enum(e), MVal::Enum(i)) => o.push(e[*i].1),
            (MTy::Union(u), MVal::Union(i, x)) => {
                o.push(u[*i].1);
                self.enc(self.ty(&u[*i].2), x, o);
            }
            (MTy::Tuple(f), MVal::Seq(s)) => {
                if let Some((a, b, _, max)) = self.rstring(t) {
                    // a restricted string is written as the string it is
                    let MVal::Seq(rest) = &s[1] else { unreachable!() };
                    Self::len(max, rest.len() + 1, o);
                    self.enc(a, &s[0], o);
                    rest.iter().for_each(|x| self.enc(b, x, o));
                } else {
                    f.iter().zip(s).for_each(|(r, x)| self.enc(self.ty(r), x, o));
                }
            }
            (MTy::Struct(f), MVal::Seq(s)) => f.iter().zip(s).for_each(|(r, x)| self.enc(self.ty(&r.1), x, o)),
            (MTy::Array(r, _), MVal::Seq(s)) => s.iter().for_each(|x| self.enc(self.ty(r), x, o)),
            (MTy::List(r, _, max), MVal::Seq(s)) if is_uni(r) => {
                let n = s.iter().map(char_len).sum();
                Self::len(*max, n, o);
                s.iter().for_each(|x| self.enc(self.ty(r), x, o));
            }
            (MTy::List(r, _, max), MVal::Seq(s)) | (MTy::Set(r, _, max), MVal::Seq(s)) => {
                Self::len(*max, s.len(), o);
                s.iter().for_each(|x| self.enc(self.ty(r), x, o));
            }
            (MTy::Map(k, r, _, max), MVal::Map(s)) => {
                Self::len(*max, s.len(), o);
                s.iter().for_each(|(a, b)| {
                    self.enc(self.ty(k), a, o);
                    self.enc(self.ty(r), b, o);
                });
            }
            (t, v) => panic!("model: {v:?} for {t:?}"),
        }
    }

    // -------------------------------------------------------------- reference decoder

    /// Reads a value from the start of the data; `None` if there is no valid encoding.
    pub fn dec(&self, t: &MTy, d: &mut &[u8]) -> Option<MVal> {
        fn take<'x>(d: &mut &'x [u8], n: usize) -> Option<&'x [u8]> {
            if d.len() < n {
                return None;
            }
            let (a, b) = d.split_at(n);
            *d = b;
            Some(a)
        }
        fn len(d: &mut &[u8], a: u64, b: u64) -> Option<u64> {
            let mut x = [0u8; 8];
            let n = prefix(b);
            x[..n].copy_from_slice(take(d, n)?);
            let n = u64::from_le_bytes(x);
            (n >= a && n <= b).then_some(n)
        }
        fn chr(d: &mut &[u8]) -> Option<char> {
            for n in 1..=4.min(d.len()) {
                if let Ok(s) = std::str::from_utf8(&d[..n]) {
                    *d = &d[n..];
                    return s.chars().next();
                }
            }
            None
        }
        Some(match t {
            MTy::Prim(c) if !is_readable(*c) => return None,
            MTy::Prim(c) => MVal::Prim(take(d, byte_size(*c))?.to_vec()),
            MTy::Unicode => MVal::Char(chr(d)?),
            MTy::Enum(v) => {
                let x = take(d, 1)?[0];
                MVal::Enum(v.iter().position(|e| e.1 == x)?)
            }
            MTy::Union(v) => {
                let x = take(d, 1)?[0];
                let i = v.iter().position(|e| e.1 == x)?;
                MVal::Union(i, Box::new(self.dec(self.ty(&v[i].2), d)?))
            }
            MTy::Tuple(f) => {
                if let Some((a, b, min, max)) = self.rstring(t) {
                    let n = len(d, min, max)?;
                    let first = self.dec(a, d)?;
                    return Some(MVal::Seq(vec![first, MVal::Seq((1..n).map(|_| self.dec(b, d)).collect::<Option<_>>()?)]));
                }
                MVal::Seq(f.iter().map(|r| self.dec(self.ty(r), d)).collect::<Option<_>>()?)
            }
            MTy::Struct(f) => MVal::Seq(f.iter().map(|r| self.dec(self.ty(&r.1), d)).collect::<Option<_>>()?),
            MTy::Array(r, n) => MVal::Seq((0..*n).map(|_| self.dec(self.ty(r), d)).collect::<Option<_>>()?),
            MTy::List(r, a, b) if is_uni(r) => {
                let n = len(d, *a, *b)?;
                let s = take(d, usize::try_from(n).ok()?)?;
                MVal::Seq(std::str::from_utf8(s).ok()?.chars().map(MVal::Char).collect())
            }
            MTy::List(r, a, b) => {
                let n = len(d, *a, *b)?;
                MVal::Seq((0..n).map(|_| self.dec(self.ty(r), d)).collect::<Option<_>>()?)
            }
            MTy::Set(r, a, b) => {
                let n = len(d, *a, *b)?;
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                for _ in 0..n {
                    let x = self.dec(self.ty(r), d)?;
                    if !seen.insert(self.bytes(self.ty(r), &x)) {
                        return None;
                    }
                    v.push(x);
                }
                MVal::Seq(v)
            }
            MTy::Map(k, r, a, b) => {
                let n = len(d, *a, *b)?;
                let mut seen = BTreeSet::new();
                let mut v = vec![];
                for _ in 0..n {
                    let x = self.dec(self.ty(k), d)?;
                    if !seen.insert(self.bytes(self.ty(k), &x)) {
                        return None;
                    }
                    v.push((x, self.dec(self.ty(r), d)?));
                }
                MVal::Map(v)
            }
        })
    }

    // -------------------------------------------------------------- canonical notation

    pub fn number(code: u8, b: &[u8]) -> StrictVal {
        if code == 0 {
            return StrictVal::Unit;
        }
        let neg = is_signed(code) && b.last().map(|x| x & 0x80 != 0).unwrap_or(false);
        let fill = if neg { 0xff } else { 0 };
        StrictVal::Number(if is_small(code) {
            let mut x = [fill; 8];
            x[..b.len()].copy_from_slice(b);
            if is_signed(code) { StrictNum::Int(i64::from_le_bytes(x)) } else { StrictNum::Uint(u64::from_le_bytes(x)) }
        } else {
            let mut x = [fill; 128];
            x[..b.len()].copy_from_slice(b);
            if is_signed(code) { StrictNum::BigInt(i1024::from_le_bytes(x)) } else { StrictNum::BigUint(u1024::from_le_bytes(x)) }
        })
    }
    pub fn chars(&self, t: &MTy, v: &MVal) -> u8 {
        match (t, v) {
            (MTy::Enum(e), MVal::Enum(i)) => e[*i].1,
            _ => unreachable!(),
        }
    }
    /// The text of a collection of characters.
    pub fn string(&self, r: &Ref, s: &[MVal]) -> String {
        s.iter()
            .map(|x| match x {
                MVal::Char(c) => *c,
                x => self.chars(self.ty(r), x) as char,
            })
            .collect()
    }
    pub fn raw(s: &[MVal]) -> Vec<u8> {
        s.iter()
            .map(|x| match x {
                MVal::Prim(b) => b[0],
                _ => unreachable!(),
            })
            .collect()
    }
    pub fn rtext(&self, t: &MTy, s: &[MVal]) -> Option<String> {
        let (a, b, ..) = self.rstring(t)?;
        let MVal::Seq(rest) = &s[1] else { unreachable!() };
        let mut out = String::new();
        out.push(self.chars(a, &s[0]) as char);
        rest.iter().for_each(|x| out.push(self.chars(b, x) as char));
        Some(out)
    }
    /// The value as the library itself gives it when it reads an encoding.
    pub fn canon(&self, t: &MTy, v: &MVal) -> StrictVal {
        let all = |r: &Ref, s: &[MVal]| -> Vec<StrictVal> { s.iter().map(|x| self.canon(self.ty(r), x)).collect() };
        match (t, v) {
            (MTy::Prim(c), MVal::Prim(b)) => Self::number(*c, b),
            (MTy::Unicode, MVal::Char(c)) => StrictVal::String(c.to_string()),
            (MTy::Enum(e), MVal::Enum(i)) => StrictVal::Enum(EnumTag::Name(vname(&e[*i].0))),
            (MTy::Union(u), MVal::Union(i, x)) => {
                StrictVal::Union(EnumTag::Name(vname(&u[*i].0)), Box::new(self.canon(self.ty(&u[*i].2), x)))
            }
            (MTy::Tuple(f), MVal::Seq(s)) => match self.rtext(t, s) {
                Some(s) => StrictVal::String(s),
                None => StrictVal::Tuple(f.iter().zip(s).map(|(r, x)| self.canon(self.ty(r), x)).collect()),
            },
            (MTy::Struct(f), MVal::Seq(s)) => {
                StrictVal::Struct(f.iter().zip(s).map(|(r, x)| (fieldname(&r.0), self.canon(self.ty(&r.1), x))).collect::<IndexMap<_, _>>())
            }
            (MTy::Array(r, _), MVal::Seq(s)) if is_byte(r) => StrictVal::bytes(Self::raw(s)),
            (MTy::Array(r, _), MVal::Seq(s)) => StrictVal::List(all(r, s)),
            (MTy::List(r, ..), MVal::Seq(s)) => match self.text(r) {
                Text::Bytes => StrictVal::bytes(Self::raw(s)),
                Text::No => StrictVal::List(all(r, s)),
                _ => StrictVal::String(self.string(r, s)),
            },
            (MTy::Set(r, ..), MVal::Seq(s)) => StrictVal::Set(all(r, s)),
            (MTy::Map(k, r, ..), MVal::Map(s)) => {
                StrictVal::Map(s.iter().map(|(a, b)| (self.canon(self.ty(k), a), self.canon(self.ty(r), b))).collect())
            }
            (t, v) => panic!("model: {v:?} for {t:?}"),
        }
    }
    pub fn readable(&self, t: &MTy) -> bool {
        match t {
            MTy::Prim(c) => is_readable(*c),
            t => t.refs().iter().all(|r| self.readable(self.ty(r))),
        }
    }
    /// Bytes every value of the type takes at least.
    pub fn min_width(&self, t: &MTy) -> u64 {
        let r = |r: &Ref| self.min_width(self.ty(r));
        match t {
            MTy::Prim(c) => byte_size(*c) as u64,
            MTy::Unicode | MTy::Enum(_) => 1,
            MTy::Union(v) => 1 + v.iter().map(|x| r(&x.2)).min().unwrap(),
            MTy::Tuple(v) if self.rstring(t).is_none() => v.iter().map(r).fold(0, |a, b| a.saturating_add(b)),
            MTy::Struct(v) => v.iter().map(|x| r(&x.1)).fold(0, |a, b| a.saturating_add(b)),
            MTy::Array(x, n) => r(x).saturating_mul(*n as u64),
            _ => 1,
        }
    }
}

fn char_len(v: &MVal) -> usize {
    match v {
        MVal::Char(c) => c.len_utf8(),
        _ => unreachable!(),
    }
}
pub fn vname(n: &str) -> VariantName { VariantName::try_from(n.to_string()).unwrap() }

// ------------------------------------------------------------------ types worth having values of

fn small_sizing(src: &mut Src) -> (u64, u64) {
    match src.weighted(&[6, 3, 3, 2, 2, 1, 1, 6]) {
        0 => (0, 0xFF),
        1 => (1, 0xFF),
        2 => (0, 0xFFFF),
        3 => (0, 0xFFFFFF),
        4 => *src.pick(&[(0, 0x100), (0, 0xFE), (0, 0x1_0000), (0, 0xFFFE), (1, 0x10_0000), (2, 0xFFFF)]),
        5 => *src.pick(&[(0, 0xFFFF_FFFF), (0, 0x100_0000), (1, 0xFFFF_FFFE)]),
        6 => *src.pick(&[(0, u64::MAX), (0, 0x1_0000_0000), (1, u64::MAX - 1)]),
        _ => {
            let a = src.below(4);
            (a, a + src.below(6))
        }
    }
}

fn vref(src: &mut Src, w: &World, depth: usize, prims: &[u8]) -> Ref {
    let l = w.libs.len() - 1;
    let all: usize = w.libs.iter().map(|x| x.types.len()).sum();
    if all == 0 || (depth > 0 && src.below(5) < 3) {
        return Ref::Inline(Box::new(if depth == 0 { MTy::Prim(*src.pick(prims)) } else { gen_vty(src, w, depth - 1, prims) }));
    }
    let here = w.libs[l].types.len();
    if here > 0 && (l == 0 || src.below(4) > 0) {
        return Ref::Named(l, src.usize(0, here - 1));
    }
    loop {
        let k = src.usize(0, l);
        if !w.libs[k].types.is_empty() {
            return Ref::Named(k, src.usize(0, w.libs[k].types.len() - 1));
        }
    }
}

fn vchars(src: &mut Src, w: &World, depth: usize) -> Ref {
    let mut named = vec![];
    for (l, lib) in w.libs.iter().enumerate() {
        for (i, t) in lib.types.iter().enumerate() {
            if char_enum(&t.1) {
                named.push((l, i));
            }
        }
    }
    if !named.is_empty() && (depth == 0 || src.bool()) {
        let (l, i) = *src.pick(&named);
        return Ref::Named(l, i);
    }
    Ref::Inline(Box::new(gen_chars(src)))
}
fn gen_chars(src: &mut Src) -> MTy {
    let (a, n) = *src.pick(&[(b'a', 3u8), (b'A', 26), (32, 95), (126, 2), (b'0', 10), (b'x', 1), (32, 2)]);
    MTy::Enum((a..a + n).map(|c| (format!("{}{c}", *src.pick(&["c", "ch", "x"])), c)).collect())
}

/// A type of which values are generated.
pub fn gen_vty(src: &mut Src, w: &World, depth: usize, prims: &[u8]) -> MTy {
    let inl = |t: MTy| Ref::Inline(Box::new(t));
    if depth == 0 {
        let named = w.libs.iter().any(|l| !l.types.is_empty());
        match src.weighted(&[5, 1, 2, 1, if named { 4 } else { 0 }]) {
            0 => return MTy::Prim(*src.pick(prims)),
            1 => return MTy::Unicode,
            2 => return gen_venum(src),
            3 => return gen_chars(src),
            _ => {}
        }
    }
    let r = |src: &mut Src| vref(src, w, depth, prims);
    if depth > 0 && src.below(100) == 0 {
        return gen_wide(src, w, depth, prims);
    }
    match src.weighted(&[4, 1, 2, 1, 3, 3, 2, 3, 4, 2, 2, 2, 2, 2, 2, 4, 2, 3]) {
        0 => MTy::Prim(*src.pick(prims)),
        1 => MTy::Unicode,
        2 => gen_venum(src),
        3 => gen_chars(src),
        4 => {
            let none = if depth > 0 && src.below(5) > 0 { inl(MTy::Prim(0)) } else { r(src) };
            let some = r(src);
            if src.below(6) == 0 {
                return near_option(src, none, some);
            }
            MTy::Union(vec![("none".into(), 0, none), ("some".into(), 1, some)])
        }
        5 => {
            let n = src.usize(1, 4);
            let t = *src.pick(&[0u8, 0, 1, 7, 252]);
            let names = ["a", "b", "none", "some", "variantName", "zz_9"];
            let k = src.usize(0, 5);
            MTy::Union((0..n).map(|i| (names[(i + k) % 6].to_string(), t + (i as u8) * if t == 7 { 5 } else { 1 }, r(src))).collect())
        }
        6 => MTy::Tuple(vec![r(src)]),
        7 => {
            let n = src.usize(2, 4);
            MTy::Tuple((0..n).map(|_| r(src)).collect())
        }
        8 => {
            let n = src.usize(1, 4);
            let names = ["a", "b", "fieldName", "_x", "none", "some", "c9", "tag"];
            let k = src.usize(0, 7);
            MTy::Struct((0..n).map(|i| (names[(i * 3 + k) % 8].to_string(), r(src))).collect())
        }
        9 => MTy::Array(
            if depth > 0 { inl(MTy::Prim(*src.pick(&[0x40, 1]))) } else { r(src) },
            if depth > 0 { *src.pick(&[0u16, 1, 2, 3, 4, 8, 20, 32, 33]) } else { 2 },
        ),
        10 if depth > 0 && src.below(5) == 0 => {
            // items which take space: the length of data limits the work on hostile ones
            let code = *src.pick(&prims.iter().copied().filter(|c| *c != 0).collect::<Vec<_>>());
            let item = match src.below(4) {
                0 => MTy::Unicode,
                1 if depth > 1 => MTy::Tuple(vec![inl(MTy::Prim(code)), inl(MTy::Unicode)]),
                2 => gen_venum(src),
                _ => MTy::Prim(code),
            };
            MTy::Array(inl(item), *src.pick(&[64u16, 127, 128, 129, 255, 256, 257, 300, 513, 0xFFFF]))
        }
        10 => MTy::Array(r(src), src.below(4) as u16),
        11 => {
            let (a, b) = small_sizing(src);
            MTy::List(if depth > 0 { inl(MTy::Prim(*src.pick(&[0x40, 1]))) } else { r(src) }, a, b)
        }
        12 => {
            let (a, b) = small_sizing(src);
            MTy::List(if depth > 0 { inl(MTy::Unicode) } else { r(src) }, a, b)
        }
        13 => {
            let (a, b) = small_sizing(src);
            MTy::List(if depth > 0 { vchars(src, w, depth) } else { r(src) }, a, b)
        }
        14 => {
            if depth < 2 {
                return MTy::Tuple(vec![r(src), r(src)]);
            }
            let (a, b) = small_sizing(src);
            let first = vchars(src, w, depth);
            if src.below(3) == 0 {
                let (first, rest) = (vchars(src, w, depth - 1), vchars(src, w, depth - 1));
                let other = vref(src, w, depth - 1, prims);
                return near_rstring(src, first, rest, other, (a, b));
            }
            MTy::Tuple(vec![first, inl(MTy::List(vchars(src, w, depth - 1), a, b))])
        }
        15 => {
            let (a, b) = small_sizing(src);
            MTy::List(r(src), a, b)
        }
        16 => {
            let (a, b) = small_sizing(src);
            MTy::Set(r(src), a, b)
        }
        _ => {
            let (a, b) = small_sizing(src);
            MTy::Map(r(src), r(src), a, b)
        }
    }
}
/// Types with as many fields or variants as there can be.
fn gen_wide(src: &mut Src, w: &World, depth: usize, prims: &[u8]) -> MTy {
    let n = *src.pick(&[16usize, 17, 127, 128, 129, 200, 254, 255]);
    let code = *src.pick(prims);
    let special = src.usize(0, n - 1);
    let odd = vref(src, w, depth, prims);
    let at = |i: usize| if i == special { odd.clone() } else { Ref::Inline(Box::new(MTy::Prim(code))) };
    match src.below(3) {
        0 => MTy::Tuple((0..n).map(at).collect()),
        1 => MTy::Struct((0..n).map(|i| (format!("f{}", (i * 7) % n + 1000 * i), at(i))).collect()),
        _ => {
            let down = src.bool();
            MTy::Union((0..n).map(|i| (format!("v{i}"), if down { 255 - i as u8 } else { i as u8 }, at(i))).collect())
        }
    }
}
fn gen_venum(src: &mut Src) -> MTy {
    match src.below(8) {
        0 => MTy::Enum(vec![("false".into(), 0), ("true".into(), 1)]),
        // ascii symbols which are not all printable
        1 => MTy::Enum((0..128u8).map(|c| (format!("s{c}"), c)).collect()),
        2 => MTy::Enum(vec![("a".into(), b'b'), ("b".into(), b'a'), ("c".into(), 200)]),
        3 => MTy::Enum((0..=254u8).map(|c| (format!("s{c}"), 254 - c)).collect()),
        _ => {
            let n = src.usize(1, 5);
            let k = src.byte() as usize;
            let step = src.usize(1, 50);
            let mut used = BTreeSet::new();
            MTy::Enum(
                (0..n)
                    .map(|i| {
                        let g = Gen { long_names: false, ..LIB_GEN };
                        let f = field_name(src, &g);
                        (uniq(&mut used, f), ((k + i * step) % 256) as u8)
                    })
                    .collect::<Vec<_>>()
                    .into_iter()
                    .fold(vec![], |mut v: Vec<(String, u8)>, x| {
                        if !v.iter().any(|y| y.1 == x.1) {
                            v.push(x);
                        }
                        v
                    }),
            )
        }
    }
}

/// One or two libraries of up to seven types.
pub fn gen_vworld(src: &mut Src, prims: &[u8]) -> World {
    let mut w = World::default();
    for l in 0..src.usize(1, 2) {
        w.libs.push(MLib { name: format!("Lib{l}"), types: vec![] });
        for i in 0..src.usize(1, 6) {
            let t = gen_vty(src, &w, 3, prims);
            w.libs[l].types.push((format!("T{i}"), t));
        }
    }
    unambiguous(w)
}

/// Types each built upon the previous one, up to hundreds of levels.
pub fn gen_deep(src: &mut Src, prims: &[u8]) -> World {
    let inl = |t: MTy| Ref::Inline(Box::new(t));
    let n = *src.pick(&[17usize, 33, 65, 100, 129, 200, 257, 300]);
    let down = src.bool();
    let mut types: Vec<(String, MTy)> = vec![];
    for i in 0..n {
        let prev = if i == 0 { inl(MTy::Prim(*src.pick(prims))) } else { Ref::Named(0, i - 1) };
        let small = inl(MTy::Prim(1));
        let t = match src.below(if i < 3 { 9 } else { 8 }) {
            0 => MTy::Tuple(vec![prev]),
            1 => MTy::List(prev, 1, if i < 5 { 0xFFFF } else { 1 }),
            2 => MTy::Union(vec![("some".into(), *src.pick(&[0, 1, 9]), prev)]),
            3 => MTy::Array(prev, 1),
            4 => MTy::Tuple(vec![small, prev]),
            5 => MTy::Struct(vec![("a".into(), prev), ("b".into(), small)]),
            6 => MTy::Map(small, prev, 1, 1),
            7 => MTy::Set(prev, 1, 1),
            _ => MTy::Union(vec![("none".into(), 0, inl(MTy::Prim(0))), ("some".into(), 1, prev)]),
        };
        types.push((format!("T{:03}", if down { 999 - i } else { i }), t));
    }
    let mut w = World::default();
    w.libs.push(MLib { name: "Deep".into(), types });
    w
}
/// One library with one type of collections which cross the limits of length classes, and how many
/// items values of it may have.
pub fn gen_large(src: &mut Src, prims: &[u8]) -> (World, i64) {
    if src.below(6) == 0 {
        return (gen_deep(src, prims), 2_000);
    }
    let inl = |t: MTy| Ref::Inline(Box::new(t));
    let mut w = World::default();
    w.libs.push(MLib { name: "Large".into(), types: vec![] });
    let num: Vec<u8> = prims.iter().copied().filter(|c| *c != 0).collect();
    let key = *src.pick(&num.iter().copied().filter(|c| matches!(c, 3 | 4 | 8 | 16 | 32)).collect::<Vec<_>>());
    let (a, b) = *src.pick(&[
        (0u64, 0xFFu64), (0, 0xFFFF), (0, 0xFFFF), (0, 0xFF_FFFF), (0, 0x100), (0, 0x1_0000), (255, 0xFFFF), (256, 256), (65536, 0xFF_FFFF), (0, 0xFFFF_FFFF), (0, u64::MAX), (300, u64::MAX),
    ]);
    let item = |src: &mut Src| match src.below(5) {
        0 => inl(MTy::Unicode),
        1 => inl(gen_venum(src)),
        2 => inl(gen_chars(src)),
        _ => inl(MTy::Prim(*src.pick(&num))),
    };
    let t = match src.below(6) {
        0 => MTy::Set(inl(MTy::Prim(key)), a, b),
        1 => MTy::Map(inl(MTy::Prim(key)), item(src), a, b),
        2 => MTy::Array(item(src), *src.pick(&[255u16, 256, 257, 300, 512, 4096, 0x7FFF, 0x8000, 0xFFFF])),
        3 => gen_wide(src, &w, 1, prims),
        _ => MTy::List(item(src), a, b),
    };
    let t = match src.below(6) {
        0 => MTy::Tuple(vec![inl(t)]),
        1 => MTy::Struct(vec![("a".into(), inl(MTy::Prim(1))), ("b".into(), inl(t)), ("c".into(), inl(MTy::Prim(1)))]),
        2 => MTy::Union(vec![("none".into(), 0, inl(MTy::Prim(0))), ("some".into(), 1, inl(t))]),
        _ => t,
    };
    w.libs[0].types.push(("T".into(), t));
    (w, *src.pick(&[400i64, 1500, 70_000]))
}

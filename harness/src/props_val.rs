//! Properties of reflected values: typification, serialization, deserialization.

use std::collections::{BTreeMap, BTreeSet};

use indexmap::IndexMap;
use strict_encoding::{FieldName, StreamReader, VariantName};
use strict_types::typify::TypeSpec;
use strict_types::value::{EnumTag, StrictNum};
use strict_types::typesys::TypeFqn;
use strict_types::{SemId, StrictVal, SymbolicSys, Ty};

use crate::engine::*;
use crate::model::*;
use crate::props_lib::import_all;
use crate::util::*;
use crate::val::*;

pub const PROPS: &[&Prop] = &[&C21, &C22, &C23, &C24, &C25];

pub const VAL_RULE: &str = "random worlds of 1-2 libraries with 1-6 types each: numbers of all sizes, characters, enumerations, unions, options, newtypes, \
tuples, structures, byte and other arrays, byte strings, unicode, ASCII and restricted strings, lists, sets and maps of every length class, three inline levels; \
up to three values of each of three types per world, now and then with 255..66000 items";

pub struct Case {
    pub w: World,
    pub ids: Ids,
    pub sys: SymbolicSys,
    /// everything in the system by id
    pub types: Vec<(Id, MTy)>,
}

/// Nothing if two different types share an id (a recorded finding on ids).
pub fn setup(src: &mut Src, ctx: &mut Ctx, prims: &[u8]) -> Result<Option<Case>, Fail> {
    let w = gen_vworld(src, prims);
    setup_in(w, ctx)
}
pub fn setup_in(w: World, ctx: &mut Ctx) -> Result<Option<Case>, Fail> {
    let ids = w.ids();
    fn walk(w: &World, ids: &Ids, id: Id, t: &MTy, out: &mut BTreeMap<Id, (Ty<SemId>, MTy)>) -> bool {
        let ty = w.sys_ty(ids, t);
        if let Some((old, _)) = out.insert(id, (ty.clone(), t.clone())) {
            if old != ty {
                return false;
            }
        }
        t.refs().into_iter().all(|r| match r {
            Ref::Inline(i) => walk(w, ids, w.ref_id(ids, r), i, out),
            _ => true,
        })
    }
    let mut out = BTreeMap::new();
    for (l, lib) in w.libs.iter().enumerate() {
        for (i, (_, t)) in lib.types.iter().enumerate() {
            if !walk(&w, &ids, ids.types[l][i], t, &mut out) {
                ctx.class("skipped: two types share an id");
                return Ok(None);
            }
        }
    }
    let order: Vec<usize> = (0..w.libs.len()).collect();
    let sys = import_all(&w, &ids, &order)?;
    let types = out.into_iter().map(|(i, (_, t))| (i, t)).collect();
    Ok(Some(Case { w, ids, sys, types }))
}

/// A type of the system, named ones with their name.
pub fn choose<'a>(src: &mut Src, c: &'a Case) -> (Id, &'a MTy, Option<TypeFqn>) {
    if src.below(3) > 0 {
        let l = src.usize(0, c.w.libs.len() - 1);
        let t = src.usize(0, c.w.libs[l].types.len() - 1);
        let (n, ty) = &c.w.libs[l].types[t];
        (c.ids.types[l][t], ty, Some(TypeFqn::with(liname(&c.w.libs[l].name), tyname(n))))
    } else {
        let (i, t) = &c.types[src.usize(0, c.types.len() - 1)];
        (*i, t, None)
    }
}
pub fn spec(src: &mut Src, id: Id, fqn: &Option<TypeFqn>) -> TypeSpec {
    match fqn {
        Some(f) if src.bool() => TypeSpec::from(f.clone()),
        _ => TypeSpec::from(semid(id)),
    }
}
pub fn budget(src: &mut Src) -> i64 {
    match src.below(40) {
        0 => 70_000,
        1 | 2 => 1_500,
        _ => 120,
    }
}
pub fn brief(b: &[u8]) -> String {
    if b.len() > 80 { format!("{}..({} bytes)", hex(&b[..80]), b.len()) } else { hex(b) }
}
pub fn brief_val(v: &StrictVal) -> String {
    let s = format!("{v:?}");
    if s.len() > 700 { format!("{}..", s.chars().take(700).collect::<String>()) } else { s }
}

const MAX: usize = u32::MAX as usize;

/// Typifies and serializes; panics become failures.
pub fn encode(c: &Case, sp: TypeSpec, v: &StrictVal) -> Result<Result<(StrictVal, Vec<u8>), String>, Fail> {
    let r = guarded(|| c.sys.typify(v.clone(), sp));
    let t = match r {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Ok(Err(guarded(|| e.to_string()).map_err(|p| Fail { msg: format!("error of typify({}) can't be displayed: {p}", brief_val(v)) })?)),
        Err(p) => fail!("typify({}): {p}", brief_val(v)),
    };
    match guarded(|| c.sys.as_types().strict_serialize_value::<MAX>(&t)) {
        Ok(Ok(b)) => Ok(Ok((t.unbox(), b.release()))),
        Ok(Err(e)) => fail!("value {} typifies but doesn't serialize: {e}", brief_val(v)),
        Err(p) => fail!("value {} typifies but can't be serialized: {p}", brief_val(v)),
    }
}

fn levels(v: &MVal) -> usize {
    1 + match v {
        MVal::Seq(s) => s.iter().rev().take(300).map(levels).max().unwrap_or(0),
        MVal::Map(s) => s.iter().take(300).map(|x| levels(&x.1)).max().unwrap_or(0),
        MVal::Union(_, x) => levels(x),
        _ => 0,
    }
}
fn features(ctx: &mut Ctx, m: &Vals, t: &MTy, v: &MVal) {
    match (t, v) {
        (_, MVal::Map(s)) => {
            ctx.class_if("map of two or more", s.len() > 1);
            ctx.class_if("map of more than 255", s.len() > 255);
        }
        (MTy::Set(..), MVal::Seq(s)) => {
            ctx.class_if("set of two or more", s.len() > 1);
            ctx.class_if("set of more than 255", s.len() > 255);
        }
        (MTy::Array(..), MVal::Seq(s)) => ctx.class_if("array of more than 255", s.len() > 255),
        (MTy::Tuple(_) | MTy::Struct(_), MVal::Seq(s)) if s.len() > 127 => ctx.class("more than 127 fields"),
        (MTy::Union(v), _) if v.len() > 127 => ctx.class("more than 127 variants"),
        (MTy::List(..), MVal::Seq(s)) => {
            ctx.class_if("list of more than 255", s.len() > 255);
            ctx.class_if("list of more than 65535", s.len() > 65535);
        }
        (MTy::Union(f), MVal::Union(i, x)) => {
            ctx.class(if is_opt(t) { "option" } else { "union" });
            features(ctx, m, m.ty(&f[*i].2), x);
        }
        (MTy::Struct(f), MVal::Seq(s)) => {
            ctx.class("structure");
            f.iter().zip(s).for_each(|(f, x)| features(ctx, m, m.ty(&f.1), x));
        }
        (MTy::Tuple(f), MVal::Seq(s)) => {
            ctx.class_if("newtype", f.len() == 1);
            f.iter().zip(s).for_each(|(f, x)| features(ctx, m, m.ty(f), x));
        }
        _ => {}
    }
}

/// A writer with limited space.
struct Full {
    got: Vec<u8>,
    room: usize,
}
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        // in small pieces
        let n = b.len().min(3).min(self.room - self.got.len());
        if n == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no space"));
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// A reader which returns data in small pieces and fails in the end.
struct Drip<'a> {
    data: &'a [u8],
    turn: usize,
}
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.turn += 1;
        if self.turn % 4 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        if self.data.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "gone"));
        }
        let n = b.len().min(1 + self.turn % 3).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

// ------------------------------------------------------------------ C21

pub static C21: Prop = Prop {
    id: "C21",
    rule: VAL_RULE,
    subs: &[Sub { name: "encode", quick: 200_000, thorough: 3_000_000, run: c21 }, Sub { name: "large", quick: 4_000, thorough: 60_000, run: c21_large }],
    known: &[],
    assumptions: &[],
};

fn c21(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    c21_in(src, ctx, &c, 3, budget)
}
fn c21_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, n) = gen_large(src, WRITABLE);
    let Some(c) = setup_in(w, ctx)? else { return Ok(()) };
    c21_in(src, ctx, &c, 1, |_| n)
}
fn c21_in(src: &mut Src, ctx: &mut Ctx, c: &Case, turns: usize, budget: impl Fn(&mut Src) -> i64) -> Res {
    let m = Vals { w: &c.w };
    for _ in 0..turns {
        let (id, t, fqn) = choose(src, c);
        for _ in 0..src.range(1, turns as u64) {
            let mut b = budget(src);
            let Some(v) = m.gen(src, t, &mut b) else { continue };
            ctx.nontrivial = true;
            features(ctx, &m, t, &v);
            ctx.class_if("over 64 levels", levels(&v) > 64);
            let val = m.canon(t, &v);
            let want = m.bytes(t, &v);
            ctx.sample(|| format!("{} :: {} => {}", show(&c.w, t), brief_val(&val), brief(&want)));
            let sp = spec(src, id, &fqn);
            let (typed, got) = match encode(&c, sp, &val)? {
                Ok(x) => x,
                Err(e) => fail!("value {} of type {} is refused: {e}", brief_val(&val), show(&c.w, t)),
            };
            ensure!(got == want, "value {} of type {} serializes into {} instead of {}", brief_val(&val), show(&c.w, t), brief(&got), brief(&want));
            ensure!(typed == val, "canonical value {} of type {} is changed by typify into {}", brief_val(&val), show(&c.w, t), brief_val(&typed));
            let again = c.sys.typify(typed, semid(id)).map_err(|e| Fail { msg: format!("typified value is refused: {e}") })?;
            ensure!(again.as_val() == &val && again.as_orig().id == semid(id), "typify isn't idempotent on {}", brief_val(&val));
            // writing into a stream gives the same bytes, also after what was written before
            let mut out = vec![7u8];
            c.sys.as_types().strict_write_value(&again, &mut out).map_err(|e| Fail { msg: format!("stream write failed: {e}") })?;
            ensure!(out[1..] == want[..] && out[0] == 7, "stream and in-memory encodings differ");
            // the size limit of the result is respected exactly
            if want.len() <= 300 {
                let fits = c.sys.as_types().strict_serialize_value::<16>(&again).is_ok();
                ensure!(fits == (want.len() <= 16), "encoding of {} bytes {} the limit of 16", want.len(), if fits { "fits" } else { "exceeds" });
                #[allow(deprecated)]
                let old = c.sys.as_types().strict_serialize_type::<16>(&again);
                ensure!(old.is_ok() == fits, "serialized types and values differ in their limits");
                if let Ok(old) = old {
                    ensure!(ser(&old) == want, "serialized type is written as {} instead of {}", brief(&ser(&old)), brief(&want));
                }
            }
            // a failing writer is reported, and gets nothing beyond what it accepts
            let room = src.usize(0, want.len() + 1);
            let mut w = Full { got: vec![], room };
            match guarded(|| c.sys.as_types().strict_write_value(&again, &mut w)) {
                Ok(r) => ensure!(r.is_ok() == (want.len() <= room), "{} bytes written into {room} bytes of space", want.len()),
                Err(p) => fail!("writing into {room} bytes of space: {p}"),
            }
            ensure!(want.starts_with(&w.got), "bytes written before a failure are wrong");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C22

pub static C22: Prop = Prop {
    id: "C22",
    rule: VAL_RULE,
    subs: &[Sub { name: "decode", quick: 200_000, thorough: 3_000_000, run: c22 }, Sub { name: "large", quick: 4_000, thorough: 60_000, run: c22_large }],
    known: &[],
    assumptions: &["the reflection reads numbers of up to 64 bits (without I24, I40, I48, I56); values with other numbers are written only"],
};

fn c22(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, READABLE)? else { return Ok(()) };
    c22_in(src, ctx, &c, 3, budget)
}
fn c22_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, n) = gen_large(src, READABLE);
    let Some(c) = setup_in(w, ctx)? else { return Ok(()) };
    c22_in(src, ctx, &c, 1, |_| n)
}
fn c22_in(src: &mut Src, ctx: &mut Ctx, c: &Case, turns: usize, budget: impl Fn(&mut Src) -> i64) -> Res {
    let m = Vals { w: &c.w };
    for _ in 0..turns {
        let (id, t, fqn) = choose(src, c);
        for _ in 0..src.range(1, turns as u64) {
            let mut b = budget(src);
            let Some(v) = m.gen(src, t, &mut b) else { continue };
            ctx.nontrivial = true;
            features(ctx, &m, t, &v);
            ctx.class_if("over 64 levels", levels(&v) > 64);
            let val = m.canon(t, &v);
            let data = m.bytes(t, &v);
            ctx.sample(|| format!("{} :: {} <= {}", show(&c.w, t), brief_val(&val), brief(&data)));
            let sp = spec(src, id, &fqn);
            let got = match guarded(|| c.sys.strict_deserialize_type(sp.clone(), &data)) {
                Ok(Ok(t)) => t,
                Ok(Err(e)) => fail!("encoding {} of {} of type {} is refused: {e}", brief(&data), brief_val(&val), show(&c.w, t)),
                Err(p) => fail!("decoding {} of type {}: {p}", brief(&data), show(&c.w, t)),
            };
            ensure!(got.as_orig().id == semid(id), "decoded value claims a wrong type");
            ensure!(got.as_val() == &val, "encoding {} of type {} reads as {} instead of {}", brief(&data), show(&c.w, t), brief_val(got.as_val()), brief_val(&val));
            // streams are read up to the end of the value and no further
            let mut more = data.clone();
            let tail = src.bytes(3);
            more.extend(&tail);
            let mut r = StreamReader::cursor::<MAX>(&more);
            match guarded(|| c.sys.strict_read_type(sp.clone(), &mut r)) {
                Ok(Ok(t)) => ensure!(t.as_val() == &val, "a value read from a stream differs"),
                Ok(Err(e)) => fail!("a value can't be read from a stream: {e}"),
                Err(p) => fail!("reading from a stream: {p}"),
            }
            ensure!(r.unconfine().position() as usize == data.len(), "reading {} consumes a wrong number of bytes", brief(&data));
            ensure!(c.sys.strict_deserialize_type(sp.clone(), &more).is_err(), "trailing bytes are accepted after {}", brief(&data));
            // no proper prefix is an encoding
            if !data.is_empty() {
                let k = src.usize(0, data.len() - 1);
                for n in [data.len(), k] {
                    let mut r = StreamReader::new::<MAX>(Drip { data: &data[..n], turn: 0 });
                    match guarded(|| c.sys.strict_read_type(sp.clone(), &mut r)) {
                        Ok(Ok(t)) if n == data.len() => ensure!(t.as_val() == &val, "a value read in pieces differs"),
                        Ok(Ok(_)) => fail!("a stream failing after {n} of {} bytes is read as a value", data.len()),
                        Ok(Err(e)) => ensure!(n < data.len(), "a value can't be read in pieces: {e}"),
                        Err(p) => fail!("reading in pieces: {p}"),
                    }
                }
                match guarded(|| c.sys.strict_deserialize_type(sp, &data[..k])) {
                    Ok(Ok(_)) => fail!("prefix of {k} bytes of {} is accepted as {}", brief(&data), show(&c.w, t)),
                    Ok(Err(_)) => {}
                    Err(p) => fail!("decoding prefix {}: {p}", brief(&data[..k])),
                }
            }
            // and the value read typifies into itself
            let val2 = got.clone().unbox();
            match c.sys.typify(val2, semid(id)) {
                Ok(t) => ensure!(t == got, "typify changes a value which was read"),
                Err(e) => fail!("a value {} of type {} which was read is refused by typify: {e}", brief_val(&val), show(&c.w, t)),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C23

pub static C23: Prop = Prop {
    id: "C23",
    rule: "worlds as for C22; encodings of random values corrupted by 1-4 byte-level edits, with lengths below and above the bounds, repeated set items and \
map keys, characters outside of their set, unknown tags; and random bytes. Byte and character strings with a length field of 4 or more bytes are left out: \
they are read by the strict_encoding crate, which reserves the announced length",
    subs: &[
        Sub { name: "corrupt", quick: 200_000, thorough: 4_000_000, run: c23_corrupt },
        Sub { name: "bounds", quick: 150_000, thorough: 2_000_000, run: c23_bounds },
        Sub { name: "random", quick: 100_000, thorough: 2_000_000, run: c23_random },
    ],
    known: &[],
    assumptions: &["order of set items and map keys isn't defined by the type and is not checked by the reflection"],
};

/// Types whose decoding may reserve or loop for a huge announced length in the dependency.
fn hostile(m: &Vals, t: &MTy) -> bool {
    let me = match t {
        MTy::List(r, _, b) => (*b > 0xFF_FFFF && m.text(r) != Text::No) || (*b > 0xFFFF && m.min_width(m.ty(r)) == 0),
        MTy::Set(r, _, b) => *b > 0xFFFF && m.min_width(m.ty(r)) == 0,
        MTy::Map(k, r, _, b) => *b > 0xFFFF && m.min_width(m.ty(k)) + m.min_width(m.ty(r)) == 0,
        MTy::Tuple(_) => m.rstring(t).map(|x| x.3 > 0xFF_FFFF).unwrap_or(false),
        _ => false,
    };
    me || t.refs().iter().any(|r| hostile(m, m.ty(r)))
}

fn judge(ctx: &mut Ctx, c: &Case, m: &Vals, id: Id, t: &MTy, data: &[u8]) -> Res {
    let mut d = data;
    let want = m.dec(t, &mut d);
    let rest = d.len();
    let mut r = StreamReader::cursor::<MAX>(data);
    crate::alloc::reset_max();
    let got = match guarded(|| c.sys.as_types().strict_read_type(semid(id), &mut r)) {
        Ok(x) => x,
        Err(p) => fail!("reading {} as {}: {p}", brief(data), show(&c.w, t)),
    };
    let mx = crate::alloc::max_request();
    ensure!(mx <= (1 << 25) + 64 * data.len(), "reading {} bytes as {} requests {mx} bytes of memory at once", data.len(), show(&c.w, t));
    match (&want, got) {
        (None, Err(e)) => {
            ctx.class("invalid");
            if let Err(p) = guarded(|| e.to_string()) {
                fail!("error of decoding {} as {} can't be displayed: {p}", brief(data), show(&c.w, t))
            }
        }
        (Some(v), Ok(g)) => {
            ctx.class("valid");
            let val = m.canon(t, v);
            ensure!(g.as_val() == &val, "{} of type {} reads as {} instead of {}", brief(data), show(&c.w, t), brief_val(g.as_val()), brief_val(&val));
            ensure!(r.unconfine().position() as usize == data.len() - rest, "reading {} as {} consumes a wrong number of bytes", brief(data), show(&c.w, t));
            let b = c.sys.as_types().strict_serialize_value::<MAX>(&g).map_err(|e| Fail { msg: format!("can't write what was read: {e}") })?;
            ensure!(b.as_slice() == &data[..data.len() - rest], "{} of type {} is written back as {}", brief(data), show(&c.w, t), brief(&b));
        }
        (Some(v), Err(e)) => fail!("valid encoding {} of {} of type {} is refused: {e}", brief(data), brief_val(&m.canon(t, v)), show(&c.w, t)),
        (None, Ok(g)) => fail!("invalid encoding {} is accepted as {} of type {}", brief(data), brief_val(g.as_val()), show(&c.w, t)),
    }
    let whole = matches!(&want, Some(_) if rest == 0);
    match guarded(|| c.sys.as_types().strict_deserialize_type(semid(id), data)) {
        Ok(x) => ensure!(x.is_ok() == whole, "{} is {} as {}", brief(data), if whole { "refused" } else { "accepted" }, show(&c.w, t)),
        Err(p) => fail!("deserializing {} as {}: {p}", brief(data), show(&c.w, t)),
    }
    Ok(())
}

fn c23_corrupt(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, READABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..3 {
        let (id, t, _) = choose(src, &c);
        if hostile(&m, t) {
            ctx.class("skipped: length fields of 4 and more bytes");
            continue;
        }
        let Some(v) = m.gen(src, t, &mut 60) else { continue };
        let data = m.bytes(t, &v);
        for _ in 0..3 {
            let mut data = data.clone();
            corrupt(src, &mut data);
            ctx.nontrivial = true;
            ctx.sample(|| format!("{} <= {}", show(&c.w, t), brief(&data)));
            judge(ctx, &c, &m, id, t, &data)?;
        }
    }
    Ok(())
}

fn c23_random(src: &mut Src, ctx: &mut Ctx) -> Res {
    let prims = if src.below(4) == 0 { WRITABLE } else { READABLE };
    let Some(c) = setup(src, ctx, prims)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..3 {
        let (id, t, _) = choose(src, &c);
        if hostile(&m, t) {
            ctx.class("skipped: length fields of 4 and more bytes");
            continue;
        }
        for _ in 0..3 {
            let n = src.usize(0, 24);
            let small = src.bool();
            let data: Vec<u8> = (0..n).map(|_| if small { *src.pick(&[0, 1, 2, 3, b'a', b'b', 32, 255, 0xc3, 0xa9]) } else { src.byte() }).collect();
            ctx.nontrivial = true;
            ctx.sample(|| format!("{} <= {}", show(&c.w, t), brief(&data)));
            judge(ctx, &c, &m, id, t, &data)?;
        }
    }
    Ok(())
}

/// Values whose collections are somewhere out of bounds, not unique, or made of foreign characters.
fn distort(src: &mut Src, m: &Vals, t: &MTy, v: &MVal, left: &mut usize, o: &mut Vec<u8>) {
    // one node, chosen by counting, is distorted
    let hit = if *left == 0 {
        false
    } else {
        *left -= 1;
        *left == 0
    };
    let sub = |src: &mut Src, r: &Ref, x: &MVal, left: &mut usize, o: &mut Vec<u8>| distort(src, m, m.ty(r), x, left, o);
    let pre = |max: u64, n: usize, o: &mut Vec<u8>| o.extend(&(n as u64).to_le_bytes()[..prefix(max)]);
    match (t, v) {
        (MTy::Enum(_), MVal::Enum(_)) if hit => o.push(src.byte()),
        (MTy::Union(u), MVal::Union(i, x)) => {
            o.push(if hit { src.byte() } else { u[*i].1 });
            sub(src, &u[*i].2, x, left, o);
        }
        (MTy::Tuple(f), MVal::Seq(s)) => {
            if let Some((a, b, _, max)) = m.rstring(t) {
                let MVal::Seq(rest) = &s[1] else { unreachable!() };
                let mut txt = vec![m.chars(a, &s[0])];
                txt.extend(rest.iter().map(|x| m.chars(b, x)));
                if hit {
                    match src.below(4) {
                        0 => txt.clear(),
                        1 => {
                            let k = src.usize(0, txt.len() - 1);
                            txt[k] = *src.pick(&[31, 32, b'b', 126, 127, 200, b'a', b'B', 0, b'9']);
                        }
                        2 => txt.truncate(src.usize(0, txt.len())),
                        _ => (0..src.range(1, 5)).for_each(|_| txt.push(*txt.last().unwrap())),
                    }
                }
                pre(max, txt.len(), o);
                o.extend(txt);
            } else {
                f.iter().zip(s).for_each(|(r, x)| sub(src, r, x, left, o));
            }
        }
        (MTy::Struct(f), MVal::Seq(s)) => f.iter().zip(s).for_each(|(r, x)| sub(src, &r.1, x, left, o)),
        (MTy::Array(r, _), MVal::Seq(s)) => s.iter().for_each(|x| sub(src, r, x, left, o)),
        (MTy::List(r, a, max), MVal::Seq(s)) | (MTy::Set(r, a, max), MVal::Seq(s)) => {
            let mut items: Vec<Vec<u8>> = vec![];
            for x in s {
                let mut b = vec![];
                sub(src, r, x, left, &mut b);
                items.push(b);
            }
            if hit && !s.is_empty() {
                match src.below(4) {
                    0 => {
                        let n = src.usize(0, items.len());
                        items.truncate(n);
                    }
                    1 => items.truncate((*a as usize).saturating_sub(1)),
                    2 => {
                        let i = src.usize(0, items.len() - 1);
                        let n = if *max < 300 && src.bool() { (*max as usize + 1).saturating_sub(items.len()) } else { 1 };
                        (0..n).for_each(|_| items.push(items[i].clone()));
                    }
                    _ => {
                        let i = src.usize(0, items.len() - 1);
                        if items[i].len() == 1 {
                            items[i][0] = *src.pick(&[31, 32, b'b', 126, 127, 200, b'a', b'B', 0, b'9']);
                        } else {
                            let x = items[i].clone();
                            items.insert(i, x);
                        }
                    }
                }
            }
            let n = if is_uni(r) { items.iter().map(|x| x.len()).sum() } else { items.len() };
            pre(*max, n, o);
            items.iter().for_each(|x| o.extend(x));
        }
        (MTy::Map(k, r, a, max), MVal::Map(s)) => {
            let mut items: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            for (x, y) in s {
                let (mut b, mut e) = (vec![], vec![]);
                sub(src, k, x, left, &mut b);
                sub(src, r, y, left, &mut e);
                items.push((b, e));
            }
            if hit && !s.is_empty() {
                match src.below(4) {
                    0 => {
                        let n = src.usize(0, items.len());
                        items.truncate(n);
                    }
                    1 => items.truncate((*a as usize).saturating_sub(1)),
                    2 => {
                        let (i, j) = (src.usize(0, items.len() - 1), src.usize(0, items.len() - 1));
                        items.push((items[i].0.clone(), items[j].1.clone()));
                    }
                    _ => {
                        let (i, j) = (src.usize(0, items.len() - 1), src.usize(0, items.len() - 1));
                        items[i].0 = items[j].0.clone();
                    }
                }
            }
            pre(*max, items.len(), o);
            items.iter().for_each(|x| {
                o.extend(&x.0);
                o.extend(&x.1);
            });
        }
        (t, v) => m.enc(t, v, o),
    }
}

fn nodes(v: &MVal) -> usize {
    1 + match v {
        MVal::Union(_, x) => nodes(x),
        MVal::Seq(s) => s.iter().map(nodes).sum(),
        MVal::Map(s) => s.iter().map(|(a, b)| nodes(a) + nodes(b)).sum(),
        _ => 0,
    }
}

fn c23_bounds(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, READABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..4 {
        let (id, t, _) = choose(src, &c);
        if hostile(&m, t) {
            ctx.class("skipped: length fields of 4 and more bytes");
            continue;
        }
        let Some(v) = m.gen(src, t, &mut 100) else { continue };
        let n = nodes(&v);
        for _ in 0..3 {
            let mut left = src.usize(1, n);
            let mut data = vec![];
            distort(src, &m, t, &v, &mut left, &mut data);
            ctx.nontrivial = true;
            ctx.sample(|| format!("{} <= {}", show(&c.w, t), brief(&data)));
            judge(ctx, &c, &m, id, t, &data)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ notations

/// A list; one of two items may look as a union.
fn pair(src: &mut Src, mut l: Vec<StrictVal>) -> StrictVal {
    if l.len() == 2 && src.bool() {
        let tag = match &l[0] {
            StrictVal::String(s) => VariantName::try_from(s.clone()).ok().map(EnumTag::Name),
            StrictVal::Number(StrictNum::Uint(n)) => u8::try_from(*n).ok().map(EnumTag::Ord),
            _ => None,
        };
        if let Some(tag) = tag {
            return StrictVal::Union(tag, Box::new(l.pop().unwrap()));
        }
    }
    StrictVal::List(l)
}
fn unpair(v: &StrictVal) -> Option<Vec<StrictVal>> {
    match v {
        StrictVal::Union(EnumTag::Name(n), x) => Some(vec![StrictVal::str(n), (**x).clone()]),
        StrictVal::Union(EnumTag::Ord(n), x) => Some(vec![StrictVal::num(*n), (**x).clone()]),
        _ => None,
    }
}

/// One of the notations in which the value may be written.
pub fn notation(src: &mut Src, m: &Vals, t: &MTy, v: &MVal) -> StrictVal {
    if src.below(5) == 0 {
        return m.canon(t, v);
    }
    let list = |src: &mut Src, r: &Ref, s: &[MVal]| -> Vec<StrictVal> { s.iter().map(|x| notation(src, m, m.ty(r), x)).collect() };
    let text = |s: String| StrictVal::String(s);
    match (t, v) {
        (MTy::Prim(0), _) => match src.below(5) {
            0 => StrictVal::Unit,
            1 => StrictVal::Tuple(vec![]),
            2 => StrictVal::Struct(IndexMap::new()),
            3 => StrictVal::List(vec![]),
            _ => StrictVal::Map(vec![]),
        },
        (MTy::Prim(c), MVal::Prim(b)) => {
            let n = b.len();
            let neg = is_signed(*c) && b[n - 1] & 0x80 != 0;
            if is_small(*c) && neg {
                return m.canon(t, v);
            }
            let wide = |b: &[u8]| {
                let mut x = [0u8; 8];
                let k = b.len().min(8);
                x[..k].copy_from_slice(&b[..k]);
                x
            };
            if is_small(*c) {
                // non-negative values of signed types may be given as unsigned numbers
                return StrictVal::Number(StrictNum::Uint(u64::from_le_bytes(wide(b))));
            }
            // small values of large types may be given as small numbers
            let fill = if neg { 0xff } else { 0 };
            if n > 8 && b[8..].iter().all(|x| *x == fill) && (!neg || b[7] & 0x80 != 0) && src.bool() {
                let x = u64::from_le_bytes(wide(b));
                return StrictVal::Number(if is_signed(*c) && b[7] & 0x80 == fill & 0x80 { StrictNum::Int(x as i64) } else { StrictNum::Uint(x) });
            }
            m.canon(t, v)
        }
        (MTy::Unicode, MVal::Char(c)) => text(c.to_string()),
        (MTy::Enum(e), MVal::Enum(i)) => {
            let (n, tag) = &e[*i];
            match src.below(5) {
                0 => StrictVal::Enum(EnumTag::Name(vname(n))),
                1 => StrictVal::Enum(EnumTag::Ord(*tag)),
                2 => text(n.clone()),
                3 => StrictVal::Number(StrictNum::Uint(*tag as u64)),
                _ => {
                    let s = (*tag as char).to_string();
                    // a character which is not the name of some variant
                    if *tag < 128 && !e.iter().any(|x| x.0 == s) { text(s) } else { text(n.clone()) }
                }
            }
        }
        (MTy::Union(u), MVal::Union(i, x)) => {
            let (n, tag, r) = &u[*i];
            let unit = matches!(m.ty(r), MTy::Prim(0));
            if is_opt(t) {
                let inner = notation(src, m, m.ty(r), x);
                match (n == "some", src.below(4)) {
                    (false, 0) if unit => return StrictVal::Unit,
                    (false, 1) if unit => return StrictVal::Tuple(vec![text("none".into()), StrictVal::Unit]),
                    (true, 0) => return StrictVal::Tuple(vec![text("some".into()), inner]),
                    // the value itself, unless it could be taken for an option
                    (true, 1) if !matches!(inner, StrictVal::Unit | StrictVal::Union(..)) && !matches!(&inner, StrictVal::Tuple(x) if x.len() == 2) => {
                        return inner;
                    }
                    _ => {}
                }
            }
            let tag = if src.bool() { EnumTag::Ord(*tag) } else { EnumTag::Name(vname(n)) };
            StrictVal::Union(tag, Box::new(notation(src, m, m.ty(r), x)))
        }
        (MTy::Tuple(_), MVal::Seq(s)) if m.rstring(t).is_some() => text(m.rtext(t, s).unwrap()),
        (MTy::Tuple(f), MVal::Seq(s)) => {
            let items: Vec<StrictVal> = f.iter().zip(s).map(|(r, x)| notation(src, m, m.ty(r), x)).collect();
            if f.len() == 1 && src.bool() && !matches!(items[0], StrictVal::Tuple(_) | StrictVal::List(_)) {
                return items.into_iter().next().unwrap();
            }
            match src.below(3) {
                0 => StrictVal::Tuple(items),
                1 => pair(src, items),
                _ => StrictVal::List(items),
            }
        }
        (MTy::Struct(f), MVal::Seq(s)) => {
            let mut items: Vec<(FieldName, StrictVal)> = f.iter().zip(s).map(|(r, x)| (fieldname(&r.0), notation(src, m, m.ty(&r.1), x))).collect();
            src.shuffle(&mut items);
            if src.bool() {
                StrictVal::Struct(items.into_iter().collect())
            } else {
                StrictVal::Map(items.into_iter().map(|(n, x)| (text(n.to_string()), x)).collect())
            }
        }
        (MTy::Array(r, _), MVal::Seq(s)) => match m.text(r) {
            Text::Bytes => {
                let raw = Vals::raw(s);
                match src.below(3) {
                    0 => StrictVal::List(list(src, r, s)),
                    1 if raw.is_ascii() => text(String::from_utf8(raw).unwrap()),
                    _ => StrictVal::bytes(raw),
                }
            }
            Text::No => {
                let l = list(src, r, s);
                pair(src, l)
            }
            _ if src.bool() => StrictVal::List(list(src, r, s)),
            _ => text(m.string(r, s)),
        },
        (MTy::List(r, ..), MVal::Seq(s)) => match m.text(r) {
            Text::Bytes => {
                let raw = Vals::raw(s);
                match src.below(3) {
                    0 => StrictVal::List(list(src, r, s)),
                    1 if std::str::from_utf8(&raw).is_ok() => text(String::from_utf8(raw).unwrap()),
                    _ => StrictVal::bytes(raw),
                }
            }
            Text::No => {
                let l = list(src, r, s);
                pair(src, l)
            }
            Text::Unicode if src.bool() => StrictVal::List(list(src, r, s)),
            Text::Chars if src.bool() => StrictVal::List(list(src, r, s)),
            _ => text(m.string(r, s)),
        },
        (MTy::Set(r, ..), MVal::Seq(s)) => {
            let l = list(src, r, s);
            if src.bool() { StrictVal::Set(l) } else { pair(src, l) }
        }
        (MTy::Map(k, r, ..), MVal::Map(s)) if src.below(3) == 0 => StrictVal::List(
            s.iter()
                .map(|(a, b)| {
                    let p = vec![notation(src, m, m.ty(k), a), notation(src, m, m.ty(r), b)];
                    if src.bool() { StrictVal::Tuple(p) } else { pair(src, p) }
                })
                .collect(),
        ),
        (MTy::Map(k, r, ..), MVal::Map(s)) => {
            StrictVal::Map(s.iter().map(|(a, b)| (notation(src, m, m.ty(k), a), notation(src, m, m.ty(r), b))).collect())
        }
        (t, v) => panic!("model: {v:?} for {t:?}"),
    }
}

pub static C25: Prop = Prop {
    id: "C25",
    rule: "worlds and values as for C21, each written in up to four random mixtures of the equivalent notations",
    subs: &[Sub { name: "notations", quick: 200_000, thorough: 3_000_000, run: c25 }, Sub { name: "large", quick: 4_000, thorough: 60_000, run: c25_large }],
    known: &[],
    assumptions: &[],
};

fn c25(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    c25_in(src, ctx, &c, 3, |s| budget(s).min(1500))
}
fn c25_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, n) = gen_large(src, WRITABLE);
    let Some(c) = setup_in(w, ctx)? else { return Ok(()) };
    c25_in(src, ctx, &c, 1, |_| n.min(1500))
}
fn c25_in(src: &mut Src, ctx: &mut Ctx, c: &Case, turns: usize, budget: impl Fn(&mut Src) -> i64) -> Res {
    let m = Vals { w: &c.w };
    for _ in 0..turns {
        let (id, t, fqn) = choose(src, c);
        let mut b = budget(src);
        let Some(v) = m.gen(src, t, &mut b) else { continue };
        let want = m.bytes(t, &v);
        let canon = m.canon(t, &v);
        for _ in 0..src.range(1, 4) {
            let val = notation(src, &m, t, &v);
            ctx.class_if("another notation than the canonical one", val != canon);
            ctx.nontrivial |= val != canon;
            ctx.sample(|| format!("{} :: {} for {}", show(&c.w, t), brief_val(&val), brief_val(&canon)));
            match encode(&c, spec(src, id, &fqn), &val)? {
                Ok((typed, got)) => {
                    ensure!(got == want, "{} and {} of type {} have encodings {} and {}", brief_val(&val), brief_val(&canon), show(&c.w, t), brief(&got), brief(&want));
                    match encode(&c, TypeSpec::from(semid(id)), &typed)? {
                        Ok((again, b)) => ensure!(again == typed && b == got, "typify changes its own result {} into {}", brief_val(&typed), brief_val(&again)),
                        Err(e) => fail!("typified value {} is refused: {e}", brief_val(&typed)),
                    }
                }
                Err(e) => fail!("{}, another notation of {}, is refused for {}: {e}", brief_val(&val), brief_val(&canon), show(&c.w, t)),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C24

#[derive(Debug)]
pub enum Verdict {
    Yes(MVal),
    No,
    /// not settled by the documentation
    Maybe,
}
use Verdict::*;

fn all(it: impl IntoIterator<Item = Verdict>) -> Result<Vec<MVal>, Verdict> {
    let mut v = vec![];
    let mut maybe = false;
    for x in it {
        match x {
            Yes(x) => v.push(x),
            Maybe => maybe = true,
            No => return Err(No),
        }
    }
    if maybe { Err(Maybe) } else { Ok(v) }
}
fn seq(it: impl IntoIterator<Item = Verdict>) -> Verdict {
    match all(it) {
        Ok(v) => Yes(MVal::Seq(v)),
        Err(v) => v,
    }
}

fn fits(code: u8, n: i128) -> Option<Vec<u8>> {
    let k = byte_size(code);
    let bits = 8 * k as u32;
    let ok = if bits >= 127 {
        n >= 0 || is_signed(code)
    } else if is_signed(code) {
        n >= -(1i128 << (bits - 1)) && n < 1i128 << (bits - 1)
    } else {
        n >= 0 && n < 1i128 << bits
    };
    ok.then(|| {
        let mut v = n.to_le_bytes().to_vec();
        v.resize(k.max(16), if n < 0 { 0xff } else { 0 });
        v.truncate(k);
        v
    })
}

/// The value of an integer, if it isn't a giant.
fn whole(n: &StrictNum) -> Option<i128> {
    let small = |b: [u8; 128]| {
        let top = if b[15] & 0x80 != 0 { 0xff } else { 0 };
        b[16..].iter().all(|x| *x == top).then(|| i128::from_le_bytes(b[..16].try_into().unwrap()))
    };
    match n {
        StrictNum::Uint(n) => Some(*n as i128),
        StrictNum::Int(n) => Some(*n as i128),
        StrictNum::BigUint(n) => small(n.to_le_bytes()),
        StrictNum::BigInt(n) => small(n.to_le_bytes()),
        _ => None,
    }
}

/// What a value given in some notation means for a type.
pub fn interp(m: &Vals, t: &MTy, v: &StrictVal) -> Verdict {
    read(m, t, v, false)
}

/// The same; `lenient` tells what a notation which needn't be accepted has to mean if it is.
fn read(m: &Vals, t: &MTy, v: &StrictVal, lenient: bool) -> Verdict {
    let ty = |r: &'_ Ref| -> MTy { m.ty(r).clone() };
    let sub = |r: &Ref, x: &StrictVal| read(m, &ty(r), x, lenient);
    let unsure = |v: Verdict| match v {
        Yes(x) if lenient => Yes(x),
        Yes(_) | Maybe => Maybe,
        No => No,
    };
    let known = |e: &[(String, u8)], f: &dyn Fn(&(String, u8)) -> bool| e.iter().position(f).map(|i| Yes(MVal::Enum(i))).unwrap_or(No);
    // a string as items of a collection
    let chars = |r: &Ref, s: &str| -> Result<Vec<MVal>, Verdict> {
        match m.ty(r) {
            _ if is_byte(r) => Ok(s.bytes().map(|b| MVal::Prim(vec![b])).collect()),
            _ if is_uni(r) => Ok(s.chars().map(MVal::Char).collect()),
            MTy::Enum(e) => all(s.chars().map(|c| known(e, &|x| x.1 as u32 == c as u32 && x.1 < 128))),
            MTy::Unicode => Err(Maybe),
            _ if s.is_empty() => Err(Maybe),
            _ => Err(No),
        }
    };
    if let (MTy::Array(..) | MTy::List(..) | MTy::Set(..), Some(p)) = (t, unpair(v)) {
        return read(m, t, &StrictVal::List(p), lenient);
    }
    if let (MTy::Tuple(f), Some(p)) = (t, unpair(v)) {
        if f.len() == 2 {
            return read(m, t, &StrictVal::List(p), lenient);
        }
    }
    match (t, v) {
        (MTy::Prim(0), StrictVal::Unit) => Yes(MVal::Prim(vec![])),
        (MTy::Prim(0), StrictVal::Tuple(x)) | (MTy::Prim(0), StrictVal::List(x)) if x.is_empty() => Yes(MVal::Prim(vec![])),
        (MTy::Prim(0), StrictVal::Struct(x)) if x.is_empty() => Yes(MVal::Prim(vec![])),
        (MTy::Prim(0), StrictVal::Map(x)) if x.is_empty() => Yes(MVal::Prim(vec![])),
        (MTy::Prim(0), StrictVal::Set(x)) if x.is_empty() => unsure(Yes(MVal::Prim(vec![]))),
        (MTy::Prim(0), _) => No,
        (MTy::Prim(c), StrictVal::Number(StrictNum::Uint(n))) => match fits(*c, *n as i128) {
            None => No,
            Some(b) => Yes(MVal::Prim(b)),
        },
        (MTy::Prim(c), StrictVal::Number(StrictNum::Int(n))) => match fits(*c, *n as i128) {
            None => No,
            Some(b) if is_signed(*c) => Yes(MVal::Prim(b)),
            Some(b) => unsure(Yes(MVal::Prim(b))),
        },
        (MTy::Prim(c), StrictVal::Number(StrictNum::BigUint(n))) => {
            let b = n.to_le_bytes();
            let k = byte_size(*c);
            if b[k..].iter().any(|x| *x != 0) || (is_signed(*c) && b[k - 1] & 0x80 != 0) {
                No
            } else if is_signed(*c) || is_small(*c) {
                unsure(Yes(MVal::Prim(b[..k].to_vec())))
            } else {
                Yes(MVal::Prim(b[..k].to_vec()))
            }
        }
        (MTy::Prim(c), StrictVal::Number(StrictNum::BigInt(n))) => {
            let b = n.to_le_bytes();
            let k = byte_size(*c);
            let neg = b[127] & 0x80 != 0;
            let top = if neg { 0xff } else { 0 };
            if b[k..].iter().any(|x| *x != top) || (is_signed(*c) && (b[k - 1] & 0x80 != 0) != neg) || (neg && !is_signed(*c)) {
                No
            } else if !is_signed(*c) || is_small(*c) {
                unsure(Yes(MVal::Prim(b[..k].to_vec())))
            } else {
                Yes(MVal::Prim(b[..k].to_vec()))
            }
        }
        (MTy::Prim(_), StrictVal::Number(_)) => Maybe,
        (MTy::Prim(_), _) => No,
        (MTy::Unicode, StrictVal::String(s)) if s.chars().count() == 1 => Yes(MVal::Char(s.chars().next().unwrap())),
        (MTy::Unicode, StrictVal::Number(n)) => match whole(n) {
            Some(n) => unsure(u32::try_from(n).ok().and_then(char::from_u32).map(|c| Yes(MVal::Char(c))).unwrap_or(No)),
            None => Maybe,
        },
        (MTy::Unicode, _) => No,
        (MTy::Enum(e), StrictVal::Enum(EnumTag::Name(n))) => known(e, &|x| x.0 == n.as_str()),
        (MTy::Enum(e), StrictVal::Enum(EnumTag::Ord(n))) => known(e, &|x| x.1 == *n),
        (MTy::Enum(e), StrictVal::Number(StrictNum::Uint(n))) => known(e, &|x| x.1 as u64 == *n),
        (MTy::Enum(e), StrictVal::Number(n)) => match whole(n) {
            Some(n) => unsure(known(e, &|x| x.1 as i128 == n)),
            None => Maybe,
        },
        (MTy::Enum(e), StrictVal::String(s)) => {
            let name = known(e, &|x| x.0 == *s);
            let tag = if s.len() == 1 { known(e, &|x| x.1 == s.as_bytes()[0]) } else { No };
            match (name, tag) {
                (Yes(a), _) | (_, Yes(a)) => Yes(a),
                _ => No,
            }
        }
        (MTy::Enum(_), _) => No,
        (MTy::Union(u), v) => {
            let var = |i: usize, x: &StrictVal| match sub(&u[i].2, x) {
                Yes(x) => Yes(MVal::Union(i, Box::new(x))),
                v => v,
            };
            if let StrictVal::Union(tag, x) = v {
                return match u.iter().position(|e| match tag {
                    EnumTag::Name(n) => e.0 == n.as_str(),
                    EnumTag::Ord(o) => e.1 == *o,
                }) {
                    Some(i) => var(i, x),
                    None => No,
                };
            }
            if !is_opt(t) {
                return match v {
                    StrictVal::Tuple(x) | StrictVal::List(x) if x.len() == 2 => {
                        let i = u.iter().position(|e| match &x[0] {
                            StrictVal::String(s) => e.0 == *s,
                            StrictVal::Enum(EnumTag::Name(n)) => e.0 == n.as_str(),
                            StrictVal::Enum(EnumTag::Ord(n)) => e.1 == *n,
                            StrictVal::Number(n) => whole(n) == Some(e.1 as i128),
                            _ => false,
                        });
                        i.map(|i| unsure(var(i, &x[1]))).unwrap_or(No)
                    }
                    _ => No,
                };
            }
            let (none, some) = (u.iter().position(|e| e.0 == "none").unwrap(), u.iter().position(|e| e.0 == "some").unwrap());
            match v {
                StrictVal::Unit => match sub(&u[none].2, v) {
                    Yes(x) => Yes(MVal::Union(none, Box::new(x))),
                    _ => Maybe,
                },
                StrictVal::Tuple(x) if x.len() == 2 => match &x[0] {
                    StrictVal::String(s) if s == "none" && x[1] == StrictVal::Unit => match sub(&u[none].2, &x[1]) {
                        Yes(x) => Yes(MVal::Union(none, Box::new(x))),
                        _ => Maybe,
                    },
                    StrictVal::String(s) if s == "some" => match var(some, &x[1]) {
                        // an option of pairs which start with a string
                        No => unsure(var(some, v)),
                        v => v,
                    },
                    // neither an option in the form of a pair, nor a pair
                    first => {
                        let none = matches!(first, StrictVal::String(s) if s == "none") && !matches!(sub(&u[none].2, &x[1]), No);
                        if none { Maybe } else { unsure(var(some, v)) }
                    }
                },
                StrictVal::List(x) if x.len() == 2 => match var(some, v) {
                    No => unsure(read(m, t, &StrictVal::Tuple(x.clone()), lenient)),
                    v => v,
                },
                _ => var(some, v),
            }
        }
        (MTy::Tuple(f), v) => {
            if let Some((a, b, min, max)) = m.rstring(t) {
                return match v {
                    StrictVal::String(s) => {
                        let (MTy::Enum(a), MTy::Enum(b)) = (a, b) else { unreachable!() };
                        let n = s.len() as u64;
                        if n < min || n > max {
                            return No;
                        }
                        let mut it = s.chars();
                        let first = it.next().map(|c| known(a, &|x| x.1 as u32 == c as u32)).unwrap_or(No);
                        let rest = seq(it.map(|c| known(b, &|x| x.1 as u32 == c as u32)));
                        seq([first, rest])
                    }
                    StrictVal::Tuple(x) | StrictVal::List(x) if x.len() == 2 => unsure(seq(f.iter().zip(x).map(|(r, x)| sub(r, x)))),
                    _ => No,
                };
            }
            match v {
                StrictVal::Tuple(x) | StrictVal::List(x) if x.len() == f.len() => match seq(f.iter().zip(x).map(|(r, x)| sub(r, x))) {
                    No if f.len() == 1 => unsure(seq([sub(&f[0], v)])),
                    v => v,
                },
                StrictVal::Tuple(_) | StrictVal::List(_) if f.len() == 1 => unsure(seq([sub(&f[0], v)])),
                v if f.len() == 1 => match sub(&f[0], v) {
                    Yes(x) => Yes(MVal::Seq(vec![x])),
                    v => v,
                },
                _ => No,
            }
        }
        (MTy::Struct(f), StrictVal::Struct(x)) => {
            if x.len() != f.len() {
                return No;
            }
            seq(f.iter().map(|(n, r)| x.get(&fieldname(n)).map(|x| sub(r, x)).unwrap_or(No)))
        }
        (MTy::Struct(f), StrictVal::Map(x)) => {
            if x.len() != f.len() {
                return No;
            }
            seq(f.iter().map(|(n, r)| {
                x.iter().find(|(k, _)| matches!(k, StrictVal::String(s) if s == n)).map(|(_, x)| sub(r, x)).unwrap_or(No)
            }))
        }
        (MTy::Struct(_), _) => No,
        (MTy::Array(r, n), StrictVal::List(x)) => {
            if x.len() != *n as usize {
                return No;
            }
            seq(x.iter().map(|x| sub(r, x)))
        }
        (MTy::Array(r, n), StrictVal::Bytes(x)) if is_byte(r) => {
            if x.len() == *n as usize { Yes(MVal::Seq(x.iter().map(|b| MVal::Prim(vec![*b])).collect())) } else { No }
        }
        (MTy::Array(r, n), StrictVal::String(s)) => match chars(r, s) {
            Ok(v) if v.len() == *n as usize => {
                if is_byte(r) && !s.is_ascii() { unsure(Yes(MVal::Seq(v))) } else { Yes(MVal::Seq(v)) }
            }
            Ok(_) => No,
            Err(v) => v,
        },
        (MTy::Array(..), StrictVal::Tuple(x)) => unsure(read(m, t, &StrictVal::List(x.clone()), lenient)),
        (MTy::Array(..), _) => No,
        (MTy::List(r, a, b), v) => {
            let n;
            let out = match v {
                StrictVal::List(x) => {
                    let v = seq(x.iter().map(|x| sub(r, x)));
                    n = match &v {
                        Yes(MVal::Seq(s)) if is_uni(r) => m.string(r, s).len(),
                        _ if is_uni(r) => return v,
                        _ => x.len(),
                    };
                    v
                }
                StrictVal::Bytes(x) if is_byte(r) => {
                    n = x.len();
                    Yes(MVal::Seq(x.iter().map(|b| MVal::Prim(vec![*b])).collect()))
                }
                StrictVal::String(s) => {
                    n = s.len();
                    match chars(r, s) {
                        Ok(v) => Yes(MVal::Seq(v)),
                        Err(v) => v,
                    }
                }
                _ => return No,
            };
            if (n as u64) < *a || n as u64 > *b {
                return No;
            }
            out
        }
        (MTy::Set(r, a, b), StrictVal::Set(x) | StrictVal::List(x)) => {
            if (x.len() as u64) < *a || x.len() as u64 > *b {
                return No;
            }
            let items = match all(x.iter().map(|x| sub(r, x))) {
                Ok(v) => v,
                Err(v) => return v,
            };
            let distinct: BTreeSet<Vec<u8>> = items.iter().map(|x| m.bytes(m.ty(r), x)).collect();
            if distinct.len() == items.len() { Yes(MVal::Seq(items)) } else { No }
        }
        (MTy::Set(..), _) => No,
        (MTy::Map(k, r, a, b), StrictVal::Map(x)) => {
            if (x.len() as u64) < *a || x.len() as u64 > *b {
                return No;
            }
            let keys = all(x.iter().map(|x| sub(k, &x.0)));
            let vals = all(x.iter().map(|x| sub(r, &x.1)));
            match (keys, vals) {
                (Err(No), _) | (_, Err(No)) => No,
                (Ok(ks), Ok(vs)) => {
                    let distinct: BTreeSet<Vec<u8>> = ks.iter().map(|x| m.bytes(m.ty(k), x)).collect();
                    if distinct.len() == ks.len() { Yes(MVal::Map(ks.into_iter().zip(vs).collect())) } else { No }
                }
                (Ok(ks), Err(_)) => {
                    let distinct: BTreeSet<Vec<u8>> = ks.iter().map(|x| m.bytes(m.ty(k), x)).collect();
                    if distinct.len() == ks.len() { Maybe } else { No }
                }
                _ => Maybe,
            }
        }
        (MTy::Map(..), StrictVal::List(x)) => {
            let pairs = x.iter().map(|p| match p {
                StrictVal::List(p) | StrictVal::Tuple(p) if p.len() == 2 => Some((p[0].clone(), p[1].clone())),
                p => unpair(p).map(|p| (p[0].clone(), p[1].clone())),
            });
            match pairs.collect() {
                Some(p) => read(m, t, &StrictVal::Map(p), lenient),
                None => No,
            }
        }
        (MTy::Map(..), StrictVal::Struct(x)) => {
            let pairs = x.iter().map(|(n, x)| (StrictVal::str(n), x.clone())).collect();
            unsure(read(m, t, &StrictVal::Map(pairs), lenient))
        }
        (MTy::Map(..), _) => No,
    }
}

/// Changes one node of a value.
fn spoil(src: &mut Src, v: &mut StrictVal, left: &mut usize) {
    if *left == 0 {
        return;
    }
    *left -= 1;
    if *left == 0 {
        return spoil_here(src, v);
    }
    match v {
        StrictVal::Struct(x) => x.values_mut().for_each(|x| spoil(src, x, left)),
        StrictVal::Union(_, x) => spoil(src, x, left),
        StrictVal::List(x) | StrictVal::Set(x) | StrictVal::Tuple(x) => x.iter_mut().for_each(|x| spoil(src, x, left)),
        StrictVal::Map(x) => x.iter_mut().for_each(|(k, x)| {
            spoil(src, k, left);
            spoil(src, x, left)
        }),
        _ => {}
    }
}
fn size(v: &StrictVal) -> usize {
    1 + match v {
        StrictVal::Struct(x) => x.values().map(size).sum(),
        StrictVal::Union(_, x) => size(x),
        StrictVal::List(x) | StrictVal::Set(x) | StrictVal::Tuple(x) => x.iter().map(size).sum(),
        StrictVal::Map(x) => x.iter().map(|(k, x)| size(k) + size(x)).sum(),
        _ => 0,
    }
}
pub fn any_val(src: &mut Src, depth: usize) -> StrictVal {
    let n = if depth == 0 { 5 } else { 11 };
    match src.below(n) {
        0 => StrictVal::Unit,
        1 => StrictVal::Number(any_num(src)),
        2 => StrictVal::String(src.pick(&["", "a", "A", "0", "none", "some", "abc", "é", "日", " ", "true", "x1"]).to_string()),
        3 => StrictVal::bytes({
            let n = src.usize(0, 4);
            src.bytes(n)
        }),
        4 => StrictVal::Enum(any_tag(src)),
        5 => StrictVal::Union(any_tag(src), Box::new(any_val(src, depth - 1))),
        6 => StrictVal::List((0..src.below(4)).map(|_| any_val(src, depth - 1)).collect()),
        7 => StrictVal::Set((0..src.below(4)).map(|_| any_val(src, depth - 1)).collect()),
        8 => StrictVal::Tuple((0..src.below(4)).map(|_| any_val(src, depth - 1)).collect()),
        9 => StrictVal::Map((0..src.below(4)).map(|_| (any_val(src, depth - 1), any_val(src, depth - 1))).collect()),
        _ => StrictVal::Struct((0..src.below(4)).map(|_| (fieldname(src.pick(&["a", "b", "fieldName", "none", "some"])), any_val(src, depth - 1))).collect()),
    }
}
fn any_tag(src: &mut Src) -> EnumTag {
    if src.bool() { EnumTag::Ord(src.byte()) } else { EnumTag::Name(vname(src.pick(&["a", "b", "none", "some", "true", "false", "c97"]))) }
}
pub fn any_num(src: &mut Src) -> StrictNum {
    let bits = src.below(65);
    let n = if bits == 0 { 0 } else { u64::MAX >> (64 - bits) };
    let n = match src.below(4) {
        0 => n,
        1 => n.wrapping_add(1),
        2 => n ^ src.below(2),
        _ => src.below(300),
    };
    match src.below(6) {
        0 | 1 => StrictNum::Uint(n),
        2 => StrictNum::Int(n as i64),
        3 => StrictNum::Int((n as i64).wrapping_neg()),
        4 => {
            let mut b = [0u8; 128];
            let k = src.usize(0, 127);
            b[k] = *src.pick(&[0x7f, 0x80, 0xff, 1]);
            b[..8].copy_from_slice(&n.to_le_bytes());
            StrictNum::BigUint(amplify::num::u1024::from_le_bytes(b))
        }
        _ => {
            let neg = src.bool();
            let mut b = [if neg { 0xffu8 } else { 0 }; 128];
            let k = src.usize(0, 126);
            b[k] = *src.pick(&[0x7f, 0x80, 0xff, 1]);
            b[..8].copy_from_slice(&n.to_le_bytes());
            StrictNum::BigInt(amplify::num::i1024::from_le_bytes(b))
        }
    }
}
fn spoil_here(src: &mut Src, v: &mut StrictVal) {
    // almost an option
    if src.below(12) == 0 || matches!(v, StrictVal::Tuple(x) if x.len() == 2 && matches!(&x[0], StrictVal::String(s) if s == "none" || s == "some")) && src.bool() {
        let word = StrictVal::str(*src.pick(&["none", "none", "none", "some", "None", "Some", "null", ""]));
        let word = if src.below(8) == 0 { StrictVal::enumer(*src.pick(&["none", "some"])) } else { word };
        let rest = match (src.below(3), &*v) {
            (0, StrictVal::Tuple(x)) if x.len() == 2 => x[1].clone(),
            (0 | 1, x) => x.clone(),
            _ => any_val(src, 1),
        };
        *v = StrictVal::Tuple(match src.below(8) {
            0 => vec![word],
            1 => vec![word, rest.clone(), rest],
            2 => vec![rest, word],
            _ => vec![word, rest],
        });
        return;
    }
    if src.below(4) == 0 {
        *v = any_val(src, 2);
        return;
    }
    match v {
        StrictVal::Number(n) => *n = any_num(src),
        StrictVal::String(s) => {
            let c = *src.pick(&['a', 'b', 'A', '0', ' ', '~', '\u{7f}', 'é', '\u{1f}', '_']);
            let k = s.char_indices().map(|x| x.0).nth(src.usize(0, s.chars().count())).unwrap_or(s.len());
            match src.below(4) {
                0 => s.insert(k, c),
                1 => s.truncate(k),
                2 => {
                    s.truncate(k);
                    s.push(c)
                }
                _ => *s = s.repeat(src.usize(0, 3)),
            }
        }
        StrictVal::Bytes(b) => match src.below(3) {
            0 => b.0.push(1),
            1 => {
                b.0.pop();
            }
            _ => {
                let s: Vec<StrictVal> = b.0.iter().map(|x| StrictVal::num(*x)).collect();
                *v = StrictVal::List(s);
            }
        },
        StrictVal::Struct(x) => match src.below(4) {
            0 => {
                x.pop();
            }
            1 => {
                x.insert(fieldname("extra"), StrictVal::Unit);
            }
            2 => {
                if let Some((_, val)) = x.pop() {
                    x.insert(fieldname(src.pick(&["renamed", "a", "b"])), val);
                }
            }
            _ => {
                let s = std::mem::take(x);
                *v = StrictVal::Tuple(s.into_values().collect());
            }
        },
        StrictVal::Enum(t) => *t = any_tag(src),
        StrictVal::Union(t, x) => match src.below(3) {
            0 => *t = any_tag(src),
            1 => **x = StrictVal::Unit,
            _ => {
                let x = (**x).clone();
                *v = x;
            }
        },
        StrictVal::List(x) | StrictVal::Set(x) | StrictVal::Tuple(x) => match src.below(6) {
            0 => {
                x.pop();
            }
            1 => {
                if let Some(y) = x.last().cloned() {
                    x.push(y);
                }
            }
            2 if !x.is_empty() => {
                let (i, j) = (src.usize(0, x.len() - 1), src.usize(0, x.len() - 1));
                x[i] = x[j].clone();
            }
            3 => x.clear(),
            4 if !x.is_empty() && x.len() < 30 => {
                let y = x[0].clone();
                let n = src.usize(1, 300);
                x.extend(std::iter::repeat(y).take(n));
            }
            _ => {
                let x = std::mem::take(x);
                *v = match src.below(3) {
                    0 => StrictVal::List(x),
                    1 => StrictVal::Set(x),
                    _ => StrictVal::Tuple(x),
                };
            }
        },
        StrictVal::Map(x) => match src.below(4) {
            0 => {
                x.pop();
            }
            1 => {
                if let Some(y) = x.last().cloned() {
                    x.push(y);
                }
            }
            2 if !x.is_empty() => {
                let (i, j) = (src.usize(0, x.len() - 1), src.usize(0, x.len() - 1));
                x[i].0 = x[j].0.clone();
            }
            _ => x.push((StrictVal::str("extra"), StrictVal::Unit)),
        },
        _ => *v = any_val(src, 2),
    }
}

pub static C24: Prop = Prop {
    id: "C24",
    rule: "worlds as for C21; values in random notations with one or two nodes changed (numbers out of range, lengths, repeated items and keys, renamed, missing \
and extra fields, tags, characters, other kinds of value), values of another type of the world, and arbitrary values; an independent interpreter gives the \
meaning of the value for the type, none, or that it isn't settled",
    subs: &[
        Sub { name: "spoilt", quick: 250_000, thorough: 5_000_000, run: c24_spoilt },
        Sub { name: "foreign", quick: 150_000, thorough: 2_000_000, run: c24_foreign },
    ],
    known: &[],
    assumptions: &[],
};

fn decide(src: &mut Src, ctx: &mut Ctx, c: &Case, m: &Vals, id: Id, fqn: &Option<TypeFqn>, t: &MTy, val: &StrictVal) -> Res {
    let verdict = interp(m, t, val);
    ctx.sample(|| format!("{} :: {} => {}", show(&c.w, t), brief_val(val), match &verdict { Yes(_) => "conforms", No => "doesn't conform", Maybe => "unsettled" }));
    let got = encode(c, spec(src, id, fqn), val)?;
    match (verdict, got) {
        (Yes(v), Ok((_, b))) => {
            ctx.class("conforms");
            let want = m.bytes(t, &v);
            ensure!(b == want, "{} of type {} has encoding {} instead of {}", brief_val(val), show(&c.w, t), brief(&b), brief(&want));
        }
        (Yes(_), Err(e)) => fail!("conforming {} is refused for {}: {e}", brief_val(val), show(&c.w, t)),
        (No, Ok((x, _))) => fail!("{} doesn't conform to {} but is accepted as {}", brief_val(val), show(&c.w, t), brief_val(&x)),
        (No, Err(_)) => ctx.class("doesn't conform"),
        (Maybe, Err(_)) => ctx.class("unsettled, refused"),
        (Maybe, Ok((_, b))) => {
            ctx.class("unsettled, accepted");
            if let Yes(v) = read(m, t, val, true) {
                let want = m.bytes(t, &v);
                ensure!(b == want, "{} is accepted for {} with encoding {} instead of {}", brief_val(val), show(&c.w, t), brief(&b), brief(&want));
                ctx.class("unsettled, accepted in its likely meaning");
            }
            if m.readable(t) {
                let mut d = &b[..];
                let v = m.dec(t, &mut d);
                ensure!(v.is_some() && d.is_empty(), "{} is accepted for {} but its encoding {} is invalid", brief_val(val), show(&c.w, t), brief(&b));
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn c24_spoilt(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..3 {
        let (id, t, fqn) = choose(src, &c);
        let Some(v) = m.gen(src, t, &mut 60) else { continue };
        for _ in 0..3 {
            let mut val = notation(src, &m, t, &v);
            for _ in 0..src.range(1, 2) {
                let mut left = src.usize(1, size(&val));
                spoil(src, &mut val, &mut left);
            }
            decide(src, ctx, &c, &m, id, &fqn, t, &val)?;
        }
    }
    Ok(())
}

fn c24_foreign(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..4 {
        let (id, t, fqn) = choose(src, &c);
        let val = if src.below(3) > 0 {
            let (_, other, _) = choose(src, &c);
            let Some(v) = m.gen(src, other, &mut 60) else { continue };
            notation(src, &m, other, &v)
        } else {
            any_val(src, 3)
        };
        decide(src, ctx, &c, &m, id, &fqn, t, &val)?;
    }
    Ok(())
}

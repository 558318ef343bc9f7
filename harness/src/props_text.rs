//! Properties of values: paths, accessors, conversions, text forms.

use std::collections::BTreeMap;

use amplify::confinement::Confined;
use strict_encoding::FieldName;
use strict_types::value::{EnumTag, KeyStep, Path, PathError, Step, StrictNum};
use strict_types::{BuildFragment, PreFragment, SemVer, StrictVal};

use crate::engine::*;
use crate::model::*;
use crate::props_val::*;
use crate::util::*;
use crate::val::*;

pub const PROPS: &[&Prop] = &[&C26, &C27, &C28, &C29, &C33];

// ------------------------------------------------------------------ C26

pub static C26: Prop = Prop {
    id: "C26",
    rule: "values of random worlds in canonical and other notations, and arbitrary values; random walks of up to 8 steps, most of them valid for the value they \
are at; accessors called on the values and on newtypes around them; random paths through their binary and serde forms",
    subs: &[
        Sub { name: "walk", quick: 150_000, thorough: 4_000_000, run: c26_walk },
        Sub { name: "access", quick: 120_000, thorough: 3_000_000, run: c26_access },
        Sub { name: "paths", quick: 60_000, thorough: 1_000_000, run: c26_paths },
    ],
    known: &[],
    assumptions: &[],
};

fn a_value(src: &mut Src, ctx: &mut Ctx) -> Result<Option<StrictVal>, Fail> {
    if src.below(3) == 0 {
        return Ok(Some(any_val(src, 4)));
    }
    if src.below(100) == 0 {
        // many items, fields or entries
        let (w, n) = gen_large(src, WRITABLE);
        let m = Vals { w: &w };
        let t = &w.libs[0].types.last().unwrap().1;
        let Some(v) = m.gen(src, t, &mut n.clone()) else { return Ok(None) };
        let v = m.canon(t, &v);
        return Ok(Some(match v {
            StrictVal::List(l) if src.bool() => StrictVal::Tuple(l),
            v => v,
        }));
    }
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(None) };
    let m = Vals { w: &c.w };
    let (_, t, _) = choose(src, &c);
    let Some(v) = m.gen(src, t, &mut 150) else { return Ok(None) };
    Ok(Some(if src.bool() { m.canon(t, &v) } else { notation(src, &m, t, &v) }))
}

fn blob(b: &[u8]) -> KeyStep { KeyStep::TinyBlob(Confined::try_from(b.to_vec()).unwrap()) }
fn kstr(s: &str) -> KeyStep { KeyStep::TinyString(Confined::try_from(s.to_string()).unwrap()) }

fn any_key(src: &mut Src) -> KeyStep {
    match src.below(3) {
        0 => KeyStep::Number(if src.bool() { src.below(300) as u128 } else { src.u128() >> src.below(120) }),
        1 => {
            let n = src.usize(0, 4);
            blob(&src.bytes(n))
        }
        _ => kstr(src.pick(&["", "a", "key", "é", "0"])),
    }
}
fn any_step(src: &mut Src) -> Step {
    match src.below(4) {
        0 => Step::NamedField(fieldname(src.pick(&["a", "b", "fieldName", "none", "tag"]))),
        1 => Step::UnnamedField(if src.bool() { src.below(4) as u8 } else { src.byte() }),
        2 => Step::Index(if src.bool() { src.below(5) as u32 } else { src.u64() as u32 }),
        _ => Step::Key(any_key(src)),
    }
}
/// Key which addresses a map entry, for the kinds of keys which may be addressed.
fn key_of(src: &mut Src, k: &StrictVal) -> Option<KeyStep> {
    Some(match k {
        // and a close, but different, one
        StrictVal::Number(StrictNum::Uint(n)) if src.chance(1, 8) => {
            KeyStep::Number(*n as u128 ^ (1u128 << src.pick(&[8, 32, 63, 64, 65, 100, 127])))
        }
        StrictVal::Bytes(b) if b.len() < 255 && src.chance(1, 8) => {
            let mut b = b.clone();
            match src.below(3) {
                0 => b.push(0),
                1 => drop(b.pop()),
                _ => b.iter_mut().for_each(|x| *x ^= 0x20),
            }
            blob(&b)
        }
        StrictVal::String(s) if s.len() < 255 && src.chance(1, 8) => match src.below(3) {
            0 => kstr(&format!("{s} ")),
            1 => kstr(&s.to_uppercase().chars().take(20).collect::<String>()),
            _ => kstr(&s.chars().skip(1).collect::<String>()),
        },
        StrictVal::Number(StrictNum::Uint(n)) => KeyStep::Number(*n as u128),
        StrictVal::Enum(EnumTag::Ord(n)) => KeyStep::Number(*n as u128),
        StrictVal::Bytes(b) if b.len() < 256 => blob(b),
        StrictVal::String(s) if s.len() < 256 => kstr(s),
        _ if src.bool() => any_key(src),
        _ => return None,
    })
}
fn addresses(k: &KeyStep, v: &StrictVal) -> Option<bool> {
    Some(match (k, v) {
        (KeyStep::Number(n), StrictVal::Number(StrictNum::Uint(m))) => *n == *m as u128,
        (KeyStep::Number(n), StrictVal::Enum(EnumTag::Ord(m))) => *n == *m as u128,
        // whether numbers address keys given as signed and large numbers isn't settled
        (KeyStep::Number(_), StrictVal::Number(_)) => return None,
        (KeyStep::TinyBlob(a), StrictVal::Bytes(b)) => a.as_slice() == b.as_slice(),
        (KeyStep::TinyString(a), StrictVal::String(b)) => a.as_str() == b.as_str(),
        (KeyStep::TinyString(_), StrictVal::Enum(EnumTag::Name(_))) => return None,
        _ => false,
    })
}

#[derive(PartialEq, Debug)]
enum Walk<'a> {
    At(&'a StrictVal),
    Index(u32, usize),
    Field(u8, usize),
    Name(FieldName),
    Key(KeyStep),
    Mismatch(Step, StrictVal),
    Open,
}
fn walk<'a>(v: &'a StrictVal, path: &[Step]) -> Walk<'a> {
    let Some(s) = path.first() else { return Walk::At(v) };
    let rest = &path[1..];
    match (v, s) {
        (StrictVal::Tuple(f), Step::UnnamedField(n)) => match f.get(*n as usize) {
            Some(x) => walk(x, rest),
            None => Walk::Field(*n, f.len()),
        },
        (StrictVal::Struct(f), Step::NamedField(n)) => match f.iter().find(|x| x.0 == n) {
            Some(x) => walk(x.1, rest),
            None => Walk::Name(n.clone()),
        },
        (StrictVal::List(f), Step::Index(n)) | (StrictVal::Set(f), Step::Index(n)) => match f.get(*n as usize) {
            Some(x) => walk(x, rest),
            None => Walk::Index(*n, f.len()),
        },
        (StrictVal::Map(f), Step::Key(k)) => {
            for (x, y) in f {
                match addresses(k, x) {
                    None => return Walk::Open,
                    Some(true) => return walk(y, rest),
                    Some(false) => {}
                }
            }
            Walk::Key(k.clone())
        }
        _ => Walk::Mismatch(s.clone(), v.clone()),
    }
}

fn c26_walk(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(v) = a_value(src, ctx)? else { return Ok(()) };
    for _ in 0..3 {
        let mut path: Vec<Step> = vec![];
        let mut at = &v;
        for _ in 0..8 {
            if src.below(12) == 0 {
                break;
            }
            let more = (src.below(8) == 0) as usize;
            let k = src.byte() as usize;
            let step = if src.below(10) == 0 {
                any_step(src)
            } else {
                match at {
                    StrictVal::Tuple(f) if !f.is_empty() => {
                        Step::UnnamedField(if src.below(4) == 0 { f.len() - 1 } else { src.usize(0, f.len() - 1 + more) }.min(255) as u8)
                    }
                    StrictVal::Struct(f) if !f.is_empty() => Step::NamedField(f.get_index(src.usize(0, f.len() - 1)).unwrap().0.clone()),
                    StrictVal::List(f) | StrictVal::Set(f) if !f.is_empty() => {
                        Step::Index(if src.below(3) == 0 { f.len() - 1 } else { src.usize(0, f.len() - 1 + more) } as u32)
                    }
                    StrictVal::Map(f) if !f.is_empty() => match key_of(src, &f[k % f.len()].0) {
                        Some(k) => Step::Key(k),
                        None => break,
                    },
                    _ => break,
                }
            };
            path.push(step);
            match walk(&v, &path) {
                Walk::At(x) => at = x,
                _ => {
                    // steps after the one which fails
                    if src.bool() {
                        path.push(any_step(src));
                    }
                    break;
                }
            }
        }
        let want = walk(&v, &path);
        if want == Walk::Open {
            continue;
        }
        ctx.nontrivial |= path.len() > 1;
        ctx.class_if("two or more steps", path.len() > 1);
        ctx.class_if("four or more steps", path.len() > 3);
        ctx.class(match &want {
            Walk::At(_) => "reaches",
            _ => "fails",
        });
        let shown: String = path.iter().map(|s| s.to_string()).collect();
        ctx.sample(|| format!("{} at {shown}", brief_val(&v)));
        let p = Path::from(Confined::try_from(path.clone()).unwrap());
        let got = match guarded(|| v.at_path(&p)) {
            Ok(Ok(x)) => {
                // the part itself is given and not a copy or an equal one
                if let Walk::At(y) = &want {
                    ensure!(std::ptr::eq(x, *y) || x != *y, "path {shown} in {} reaches another equal item", brief_val(&v));
                }
                Walk::At(x)
            }
            Ok(Err(e)) => {
                if let Err(p) = guarded(|| e.to_string()) {
                    fail!("error of path {shown} can't be displayed: {p}")
                }
                match e {
                    PathError::CollectionIndexOutOfBounds(a, b) => Walk::Index(a, b),
                    PathError::FieldNoOutOfBounds(a, b) => Walk::Field(a, b),
                    PathError::UnknownFieldName(n) => Walk::Name(n),
                    PathError::UnknownKey(k) => Walk::Key(k),
                    PathError::TypeMismatch(a, b) => Walk::Mismatch(a, b),
                }
            }
            Err(p) => fail!("path {shown} in {}: {p}", brief_val(&v)),
        };
        ensure!(got == want, "path {shown} in {} gives {got:?} instead of {want:?}", brief_val(&v));
        ensure!(v.at_path(&path).ok() == v.at_path(&p).ok(), "a path and its steps reach different values");
    }
    Ok(())
}

fn inner(v: &StrictVal) -> &StrictVal {
    match v {
        StrictVal::Tuple(f) if f.len() == 1 => inner(&f[0]),
        v => v,
    }
}

mod en {
    #![allow(dead_code)]
    use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
    #[derive(Copy, Clone, PartialEq, Eq, Debug, StrictDumb, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = "Stprop", tags = repr, into_u8, try_from_u8)]
    #[repr(u8)]
    pub enum Sample {
        #[strict_type(dumb)]
        A = 3,
        B = 1,
        None = 0,
        Some = 200,
    }
}
use en::Sample;

fn c26_access(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(mut v) = a_value(src, ctx)? else { return Ok(()) };
    // go to some part of the value
    for _ in 0..src.below(4) {
        let mut parts: Vec<StrictVal> = match &v {
            StrictVal::Tuple(f) | StrictVal::List(f) | StrictVal::Set(f) => f.clone(),
            StrictVal::Struct(f) => f.values().cloned().collect(),
            StrictVal::Union(_, x) => vec![(**x).clone()],
            StrictVal::Map(f) => f.iter().flat_map(|x| [x.0.clone(), x.1.clone()]).collect(),
            _ => break,
        };
        if parts.is_empty() {
            break;
        }
        let k = src.usize(0, parts.len() - 1);
        v = parts.swap_remove(k);
    }
    let wraps = if src.below(20) == 0 { src.below(40) } else { src.below(4) };
    for _ in 0..wraps {
        v = StrictVal::newtype(v);
    }
    let x = inner(&v).clone();
    ctx.class_if("within a newtype", x != v);
    ctx.nontrivial = true;
    ctx.sample(|| brief_val(&v));
    ensure!(v.skip_wrapper() == &x, "skip_wrapper of {} gives {}", brief_val(&v), brief_val(v.skip_wrapper()));

    fn same<T: PartialEq + std::fmt::Debug>(what: &str, v: &StrictVal, got: Result<T, String>, want: Option<T>) -> Res {
        match (got, want) {
            (Ok(a), Some(b)) => ensure!(a == b, "{what} of {} gives {a:?} instead of {b:?}", brief_val(v)),
            (Ok(a), None) => fail!("{what} of {} gives {a:?}", brief_val(v)),
            (Err(p), Some(b)) => fail!("{what} of {} doesn't give {b:?}: {p}", brief_val(v)),
            (Err(_), None) => {}
        }
        Ok(())
    }
    let num = match &x {
        StrictVal::Number(n) => Some(*n),
        _ => None,
    };
    let uint = match &num {
        Some(StrictNum::Uint(n)) => Some(*n),
        _ => None,
    };
    same("unwrap_num", &v, guarded(|| *v.unwrap_num()), num)?;
    same("unwrap_uint::<u8>", &v, guarded(|| v.unwrap_uint::<u8>()), uint.and_then(|n| u8::try_from(n).ok()))?;
    same("unwrap_uint::<u16>", &v, guarded(|| v.unwrap_uint::<u16>()), uint.and_then(|n| u16::try_from(n).ok()))?;
    same("unwrap_uint::<u32>", &v, guarded(|| v.unwrap_uint::<u32>()), uint.and_then(|n| u32::try_from(n).ok()))?;
    same("unwrap_uint::<u64>", &v, guarded(|| v.unwrap_uint::<u64>()), uint)?;
    same("unwrap_uint::<u128>", &v, guarded(|| v.unwrap_uint::<u128>()), uint.map(|x| x as u128))?;
    let string = match &x {
        StrictVal::String(s) => Some(s.clone()),
        StrictVal::Bytes(b) => String::from_utf8(b.to_vec()).ok(),
        StrictVal::List(l) => {
            l.iter().map(|x| match x { StrictVal::Enum(EnumTag::Ord(o)) => Some(*o), _ => None }).collect::<Option<Vec<u8>>>().and_then(|b| String::from_utf8(b).ok())
        }
        _ => None,
    };
    // lists of characters given by name, or wrapped, aren't settled
    let open = matches!(&x, StrictVal::List(l) if string.is_none() && !l.is_empty()
        && l.iter().all(|x| matches!(inner(x), StrictVal::Enum(_) | StrictVal::String(_))));
    if !open {
        same("unwrap_string", &v, guarded(|| v.unwrap_string()), string)?;
    }
    let bytes = match &x {
        StrictVal::Bytes(b) => Some(b.to_vec()),
        _ => None,
    };
    same("unwrap_bytes", &v, guarded(|| v.unwrap_bytes().to_vec()), bytes)?;
    let len = match &x {
        StrictVal::Tuple(f) | StrictVal::List(f) | StrictVal::Set(f) => f.len() as u64,
        _ => 0,
    };
    let no = match src.below(6) {
        0 => (len + src.below(2)).saturating_sub(1),
        1 => src.below(len + 1),
        2 => src.below(len + 1) + *src.pick(&[256, 65536]),
        _ => src.below(5),
    };
    let item = match &x {
        StrictVal::Tuple(f) if no <= 0xFFFF => f.get(no as usize),
        _ => None,
    };
    if no <= 0xFFFF {
        same(&format!("unwrap_tuple({no})"), &v, guarded(|| v.unwrap_tuple(no as u16)), item)?;
    }
    let item = match &x {
        StrictVal::List(f) | StrictVal::Set(f) => f.get(no as usize),
        _ => None,
    };
    same(&format!("unwrap_pos({no})"), &v, guarded(|| v.unwrap_pos(no as usize)), item)?;
    let name: &'static str = *src.pick(&["a", "b", "fieldName", "_x", "none", "some", "c9", "tag"]);
    let item = match &x {
        StrictVal::Struct(f) => f.iter().find(|x| x.0.as_str() == name).map(|x| x.1),
        _ => None,
    };
    same(&format!("unwrap_struct({name})"), &v, guarded(|| v.unwrap_struct(name)), item)?;
    let tag = match &x {
        StrictVal::Enum(t) => Some(t),
        _ => None,
    };
    same("unwrap_enum_tag", &v, guarded(|| v.unwrap_enum_tag()), tag)?;
    let sample = tag.and_then(|t| match t {
        EnumTag::Ord(3) => Some(Sample::A),
        EnumTag::Ord(1) => Some(Sample::B),
        EnumTag::Ord(0) => Some(Sample::None),
        EnumTag::Ord(200) => Some(Sample::Some),
        EnumTag::Ord(_) => None,
        EnumTag::Name(n) => match n.as_str() {
            "a" => Some(Sample::A),
            "b" => Some(Sample::B),
            "none" => Some(Sample::None),
            "some" => Some(Sample::Some),
            _ => None,
        },
    });
    same("unwrap_enum", &v, guarded(|| v.unwrap_enum::<Sample>()), sample)?;
    let un = match &x {
        StrictVal::Union(t, c) => Some((t, &**c)),
        _ => None,
    };
    same("unwrap_union", &v, guarded(|| v.unwrap_union()), un)?;
    let opt = un.and_then(|(t, c)| {
        let is = |n: &str, o: u8| match t {
            EnumTag::Name(x) => x.as_str() == n,
            EnumTag::Ord(x) => *x == o,
        };
        if is("some", 1) {
            Some(Some(c))
        } else if is("none", 0) && *c == StrictVal::Unit {
            Some(None)
        } else {
            None
        }
    });
    same("unwrap_option", &v, guarded(|| v.unwrap_option()), opt)?;
    let key = match &x {
        StrictVal::Map(f) if !f.is_empty() && src.below(4) > 0 => f[src.usize(0, f.len() - 1)].0.clone(),
        _ => any_val(src, 1),
    };
    let item = match &x {
        StrictVal::Map(f) => f.iter().find(|x| x.0 == key).map(|x| &x.1),
        _ => None,
    };
    same(&format!("unwrap_key({})", brief_val(&key)), &v, guarded(|| v.unwrap_key(key.clone())), item)
}

fn c26_paths(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.usize(0, 6);
    let steps: Vec<Step> = (0..n).map(|_| any_step(src)).collect();
    let p = Path::from(Confined::try_from(steps.clone()).unwrap());
    ctx.nontrivial = n > 0;
    ctx.sample(|| p.to_string());
    let text: String = steps
        .iter()
        .map(|s| match s {
            Step::NamedField(n) => format!(".{n}"),
            Step::UnnamedField(n) => format!(".{n}"),
            Step::Index(n) => format!("[{n}]"),
            Step::Key(KeyStep::Number(n)) => format!("{{{n}}}"),
            Step::Key(KeyStep::TinyString(s)) => format!("{{{s}}}"),
            Step::Key(KeyStep::TinyBlob(b)) => format!("{{0h{}}}", hex(b).to_uppercase()),
            _ => unreachable!(),
        })
        .collect();
    ensure!(p.to_string() == text, "path {steps:?} is displayed as {p}");
    ensure!(p.iter().cloned().collect::<Vec<_>>() == steps && (&p).into_iter().count() == n && p.len() == n, "path iterates over other steps");
    // binary form
    let mut want = (n as u16).to_le_bytes().to_vec();
    for s in &steps {
        match s {
            Step::NamedField(f) => {
                want.extend([0, f.len() as u8]);
                want.extend(f.as_str().as_bytes());
            }
            Step::UnnamedField(n) => want.extend([1, *n]),
            Step::Index(n) => {
                want.push(2);
                want.extend(n.to_le_bytes());
            }
            Step::Key(k) => {
                want.push(3);
                match k {
                    KeyStep::Number(n) => {
                        want.push(0);
                        want.extend(n.to_le_bytes());
                    }
                    KeyStep::TinyBlob(b) => {
                        want.extend([1, b.len() as u8]);
                        want.extend(b.as_slice());
                    }
                    KeyStep::TinyString(s) => {
                        want.extend([2, s.len() as u8]);
                        want.extend(s.as_bytes());
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    let b = ser(&p);
    ensure!(b == want, "path {p} is encoded as {} instead of {}", hex(&b), hex(&want));
    let (q, len) = de::<Path>(&b).map_err(|e| Fail { msg: format!("path {p} isn't decoded: {e}") })?;
    ensure!(q == p && len == b.len(), "path {p} decodes as {q}");
    let j = serde_json::to_string(&p).map_err(|e| Fail { msg: format!("path {p} has no JSON form: {e}") })?;
    let q: Path = serde_json::from_str(&j).map_err(|e| Fail { msg: format!("JSON of path {p} isn't read: {e}") })?;
    ensure!(q == p, "path {p} reads from JSON as {q}");
    Ok(())
}

// ------------------------------------------------------------------ C27

pub static C27: Prop = Prop {
    id: "C27",
    rule: "values of random worlds written as JSON, YAML and TOML documents (numbers of up to 64 bits; options as null or content; sets and maps with other than \
string keys as arrays; no other unions), and arbitrary documents without floating-point numbers and dates",
    subs: &[
        Sub { name: "typed", quick: 150_000, thorough: 4_000_000, run: c27_typed },
        Sub { name: "arbitrary", quick: 60_000, thorough: 1_000_000, run: c27_any },
    ],
    known: &[("convert-float", c27_float), ("convert-date", c27_date)],
    assumptions: &["documents are given as value trees; their parsers are not a part of the library"],
};

fn c27_float() -> bool {
    guarded(|| StrictVal::from(serde_json::json!(0.5))).is_err()
        || guarded(|| StrictVal::from(serde_yaml::Value::from(0.5))).is_err()
        || guarded(|| StrictVal::from(toml::Value::Float(0.5))).is_err()
}
fn c27_date() -> bool { guarded(|| StrictVal::from(toml::Value::Datetime("1979-05-27".parse().unwrap()))).is_err() }

/// A document.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Uint(u64),
    /// negative ones
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
    /// with keys of any kind; only YAML has such
    Map(Vec<(J, J)>),
}
fn only_yaml(j: &J) -> bool {
    match j {
        J::Arr(v) => v.iter().any(only_yaml),
        J::Obj(m) => m.values().any(only_yaml),
        J::Map(_) => true,
        _ => false,
    }
}
/// (`to_json` of documents JSON has no form for is their likeness, for messages)
fn to_json(j: &J) -> serde_json::Value {
    use serde_json::Value as V;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::from(*b),
        J::Uint(n) => V::from(*n),
        J::Int(n) => V::from(*n),
        J::Str(s) => V::from(s.as_str()),
        J::Arr(v) => V::Array(v.iter().map(to_json).collect()),
        J::Obj(m) => V::Object(m.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        J::Map(m) => V::Object(m.iter().map(|(k, v)| (to_json(k).to_string(), to_json(v))).collect()),
    }
}
fn to_yaml(j: &J) -> serde_yaml::Value {
    use serde_yaml::Value as V;
    match j {
        J::Null => V::Null,
        J::Bool(b) => V::from(*b),
        J::Uint(n) => V::from(*n),
        J::Int(n) => V::from(*n),
        J::Str(s) => V::from(s.as_str()),
        J::Arr(v) => V::Sequence(v.iter().map(to_yaml).collect()),
        J::Obj(m) => V::Mapping(m.iter().map(|(k, v)| (V::from(k.as_str()), to_yaml(v))).collect()),
        J::Map(m) => V::Mapping(m.iter().map(|(k, v)| (to_yaml(k), to_yaml(v))).collect()),
    }
}
fn to_toml(j: &J) -> Option<toml::Value> {
    use toml::Value as V;
    Some(match j {
        J::Null => return None,
        J::Bool(b) => V::Boolean(*b),
        J::Uint(n) => V::Integer(i64::try_from(*n).ok()?),
        J::Int(n) => V::Integer(*n),
        J::Str(s) => V::String(s.clone()),
        J::Arr(v) => V::Array(v.iter().map(to_toml).collect::<Option<_>>()?),
        J::Obj(m) => V::Table(m.iter().map(|(k, v)| Some((k.clone(), to_toml(v)?))).collect::<Option<_>>()?),
        J::Map(_) => return None,
    })
}
fn to_val(j: &J) -> StrictVal {
    match j {
        J::Null => StrictVal::Unit,
        J::Bool(b) => StrictVal::Enum(EnumTag::Ord(*b as u8)),
        J::Uint(n) => StrictVal::Number(StrictNum::Uint(*n)),
        J::Int(n) => StrictVal::Number(StrictNum::Int(*n)),
        J::Str(s) => StrictVal::String(s.clone()),
        J::Arr(v) => StrictVal::List(v.iter().map(to_val).collect()),
        J::Obj(m) => StrictVal::Map(m.iter().map(|(k, v)| (StrictVal::String(k.clone()), to_val(v))).collect()),
        J::Map(m) => StrictVal::Map(m.iter().map(|(k, v)| (to_val(k), to_val(v))).collect()),
    }
}

/// The value as a document, if it can be one.
pub fn document(src: &mut Src, m: &Vals, t: &MTy, v: &MVal) -> Option<J> {
    let all = |src: &mut Src, r: &Ref, s: &[MVal]| -> Option<J> { Some(J::Arr(s.iter().map(|x| document(src, m, m.ty(r), x)).collect::<Option<_>>()?)) };
    Some(match (t, v) {
        (MTy::Prim(0), _) => match src.below(4) {
            0 => J::Arr(vec![]),
            1 => J::Obj(BTreeMap::new()),
            _ => J::Null,
        },
        (MTy::Prim(c), MVal::Prim(b)) => {
            let neg = is_signed(*c) && b[b.len() - 1] & 0x80 != 0;
            let fill = if neg { 0xffu8 } else { 0 };
            let mut x = [fill; 8];
            let n = b.len().min(8);
            x[..n].copy_from_slice(&b[..n]);
            if b[n..].iter().any(|y| *y != fill) || (neg && x[7] & 0x80 == 0) {
                return None;
            }
            if neg { J::Int(i64::from_le_bytes(x)) } else { J::Uint(u64::from_le_bytes(x)) }
        }
        (MTy::Unicode, MVal::Char(c)) => J::Str(c.to_string()),
        (MTy::Enum(e), MVal::Enum(i)) => {
            let (n, tag) = &e[*i];
            match src.below(3) {
                0 if *tag < 2 => J::Bool(*tag == 1),
                1 => J::Uint(*tag as u64),
                _ => J::Str(n.clone()),
            }
        }
        (MTy::Union(u), MVal::Union(i, x)) => {
            if !is_opt(t) {
                return None;
            }
            let (n, _, r) = &u[*i];
            if n == "none" {
                return matches!(m.ty(r), MTy::Prim(0)).then_some(J::Null);
            }
            document(src, m, m.ty(r), x).filter(|x| *x != J::Null)?
        }
        (MTy::Tuple(_), MVal::Seq(s)) if m.rstring(t).is_some() => J::Str(m.rtext(t, s).unwrap()),
        (MTy::Tuple(f), MVal::Seq(s)) => {
            let items: Vec<J> = f.iter().zip(s).map(|(r, x)| document(src, m, m.ty(r), x)).collect::<Option<_>>()?;
            if f.len() == 1 && !matches!(items[0], J::Arr(_)) && src.bool() {
                return items.into_iter().next();
            }
            J::Arr(items)
        }
        (MTy::Struct(f), MVal::Seq(s)) => {
            J::Obj(f.iter().zip(s).map(|(r, x)| Some((r.0.clone(), document(src, m, m.ty(&r.1), x)?))).collect::<Option<_>>()?)
        }
        (MTy::Array(r, _), MVal::Seq(s)) | (MTy::List(r, ..), MVal::Seq(s)) => match m.text(r) {
            Text::Bytes => match String::from_utf8(Vals::raw(s)) {
                Ok(x) if x.is_ascii() && src.bool() => J::Str(x),
                _ => all(src, r, s)?,
            },
            Text::No => all(src, r, s)?,
            _ if src.bool() => all(src, r, s)?,
            _ => J::Str(m.string(r, s)),
        },
        (MTy::Set(r, ..), MVal::Seq(s)) => all(src, r, s)?,
        (MTy::Map(k, r, ..), MVal::Map(s)) => {
            let mut items = vec![];
            for (a, b) in s {
                items.push((document(src, m, m.ty(k), a)?, document(src, m, m.ty(r), b)?));
            }
            let sorted = items.windows(2).all(|x| matches!((&x[0].0, &x[1].0), (J::Str(a), J::Str(b)) if a < b));
            if sorted && items.iter().all(|x| matches!(x.0, J::Str(_))) && src.below(4) > 0 {
                J::Obj(items.into_iter().map(|(a, b)| if let J::Str(a) = a { (a, b) } else { unreachable!() }).collect())
            } else if src.below(3) == 0 && (1..items.len()).all(|i| !items[..i].iter().any(|x| to_yaml(&x.0) == to_yaml(&items[i].0))) {
                J::Map(items)
            } else {
                J::Arr(items.into_iter().map(|(a, b)| J::Arr(vec![a, b])).collect())
            }
        }
        (t, v) => panic!("model: {v:?} for {t:?}"),
    })
}

fn convert(ctx: &mut Ctx, j: &J) -> Result<StrictVal, Fail> {
    let want = to_val(j);
    let json = to_json(j);
    if only_yaml(j) {
        ctx.class("YAML only");
    } else {
    let got = guarded(|| StrictVal::from(json.clone())).map_err(|p| Fail { msg: format!("conversion of {json}: {p}") })?;
    ensure!(got == want, "JSON {json} converts into {} instead of {}", brief_val(&got), brief_val(&want));
    }
    let yaml = to_yaml(j);
    let got = guarded(|| StrictVal::from(yaml)).map_err(|p| Fail { msg: format!("conversion of YAML {json}: {p}") })?;
    ensure!(got == want, "YAML {json} converts into {} instead of {}", brief_val(&got), brief_val(&want));
    if let Some(toml) = to_toml(j) {
        ctx.class("TOML too");
        let got = guarded(|| StrictVal::from(toml)).map_err(|p| Fail { msg: format!("conversion of TOML {json}: {p}") })?;
        ensure!(got == want, "TOML {json} converts into {} instead of {}", brief_val(&got), brief_val(&want));
    }
    Ok(want)
}

fn c27_typed(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..4 {
        let (id, t, fqn) = choose(src, &c);
        let mut b = budget(src).min(1500);
        let Some(v) = m.gen(src, t, &mut b) else { continue };
        let Some(j) = document(src, &m, t, &v) else {
            ctx.class("no document");
            continue;
        };
        ctx.nontrivial = true;
        ctx.class("document");
        ctx.sample(|| format!("{} :: {}", show(&c.w, t), to_json(&j)));
        let val = convert(ctx, &j)?;
        match encode(&c, spec(src, id, &fqn), &val)? {
            Ok((_, b)) => {
                let want = m.bytes(t, &v);
                ensure!(b == want, "document {} of type {} has encoding {} instead of {}", to_json(&j), show(&c.w, t), brief(&b), brief(&want));
            }
            Err(e) => fail!("document {} is refused for type {}: {e}", to_json(&j), show(&c.w, t)),
        }
    }
    Ok(())
}

fn any_doc(src: &mut Src, depth: usize) -> J {
    match src.below(if depth == 0 { 5 } else { 8 }) {
        0 => J::Null,
        1 => J::Bool(src.bool()),
        2 => J::Uint(match src.below(4) {
            0 => src.below(300),
            1 => u64::MAX,
            2 => i64::MAX as u64 + src.below(2),
            _ => src.u64(),
        }),
        3 => J::Int(match src.below(3) {
            0 => -1 - src.below(300) as i64,
            1 => i64::MIN,
            _ => (src.u64() | 1 << 63) as i64,
        }),
        4 => J::Str(src.pick(&["", "a", "some", "null", "1", "é\u{7f}", "~", "0.5", "1979-05-27", "a\n", " b", "\t", "\r\n", "true", "0x1f", "\0"]).to_string()),
        5 if src.below(40) == 0 => {
            let item = any_doc(src, depth - 1);
            J::Arr((0..*src.pick(&[255u64, 256, 257, 300])).map(|i| if i % 50 == 0 { J::Uint(i) } else { item.clone() }).collect())
        }
        5 => J::Arr((0..src.below(4)).map(|_| any_doc(src, depth - 1)).collect()),
        6 => {
            let mut m: Vec<(J, J)> = vec![];
            for _ in 0..src.below(5) {
                let k = any_doc(src, depth.min(2) - 1);
                if !m.iter().any(|x| to_yaml(&x.0) == to_yaml(&k)) {
                    m.push((k, any_doc(src, depth - 1)));
                }
            }
            J::Map(m)
        }
        _ => J::Obj((0..src.below(4)).map(|i| (format!("{}{i}", src.pick(&["k", "", "field name ", "é"])), any_doc(src, depth - 1))).collect()),
    }
}
fn c27_any(src: &mut Src, ctx: &mut Ctx) -> Res {
    let j = if src.bool() { any_doc(src, 4) } else { J::Arr((0..src.range(1, 4)).map(|_| any_doc(src, 3)).collect()) };
    ctx.nontrivial = matches!(j, J::Arr(_) | J::Obj(_));
    ctx.sample(|| to_json(&j).to_string());
    convert(ctx, &j)?;
    Ok(())
}

// ------------------------------------------------------------------ C28

pub static C28: Prop = Prop {
    id: "C28",
    rule: "values of random worlds, typified, written as JSON and YAML through serde, read back and typified again; values with non-empty byte strings, with signed numbers of types wider than 64 bits, or with strings of 256 hexadecimal digits, are left out (they are the listed findings)",
    subs: &[Sub { name: "serde", quick: 120_000, thorough: 2_000_000, run: c28 }],
    known: &[("serde-bytes", c28_bytes), ("serde-hex-string", c28_hex), ("serde-large-signed", c28_signed)],
    assumptions: &[],
};

fn c28_bytes() -> bool {
    let v = StrictVal::bytes([1, 2]);
    let t = serde_json::to_string(&v).unwrap();
    serde_json::from_str::<StrictVal>(&t).ok() != Some(v)
}
/// A string which looks like a 1024-bit number.
fn long_number(s: &str) -> bool { s.len() == 256 && s.bytes().all(|b| b.is_ascii_hexdigit()) }
fn c28_hex() -> bool {
    let v = StrictVal::String("a".repeat(256));
    let t = serde_json::to_string(&v).unwrap();
    serde_json::from_str::<StrictVal>(&t).ok() != Some(v)
}
fn c28_signed() -> bool {
    let v = StrictVal::num(amplify::num::i1024::from(-5i8));
    let t = serde_json::to_string(&v).unwrap();
    serde_json::from_str::<StrictVal>(&t).ok() != Some(v)
}
fn lossy(v: &StrictVal) -> bool {
    match v {
        StrictVal::String(s) => long_number(s),
        StrictVal::Bytes(b) => !b.is_empty(),
        StrictVal::Number(StrictNum::BigInt(_)) => true,
        StrictVal::Struct(f) => f.values().any(lossy),
        StrictVal::Union(_, x) => lossy(x),
        StrictVal::List(x) | StrictVal::Set(x) | StrictVal::Tuple(x) => x.iter().any(lossy),
        StrictVal::Map(x) => x.iter().any(|x| lossy(&x.0) || lossy(&x.1)),
        _ => false,
    }
}
fn c28(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..4 {
        let (id, t, _) = choose(src, &c);
        let mut b = budget(src).min(400);
        let Some(v) = m.gen(src, t, &mut b) else { continue };
        let val = m.canon(t, &v);
        if lossy(&val) {
            ctx.class("skipped: bytes, large signed numbers or long hex");
            continue;
        }
        ctx.nontrivial = true;
        let typed = match c.sys.typify(val.clone(), semid(id)) {
            Ok(t) => t,
            Err(e) => fail!("canonical value {} is refused: {e}", brief_val(&val)),
        };
        let val = typed.as_val();
        let data = c.sys.as_types().strict_serialize_value::<{ u32::MAX as usize }>(&typed).map_err(|e| Fail { msg: e.to_string() })?;
        for yaml in [false, true] {
            let text = if yaml { serde_yaml::to_string(val).map_err(|e| e.to_string()) } else { serde_json::to_string(val).map_err(|e| e.to_string()) };
            let text = text.map_err(|e| Fail { msg: format!("{} has no serde form: {e}", brief_val(val)) })?;
            ctx.sample(|| format!("{} :: {text}", show(&c.w, t)));
            let back = if yaml { serde_yaml::from_str::<StrictVal>(&text).map_err(|e| e.to_string()) } else { serde_json::from_str(&text).map_err(|e| e.to_string()) };
            let back = back.map_err(|e| Fail { msg: format!("serde form {text} of {} isn't read: {e}", brief_val(val)) })?;
            match c.sys.typify(back.clone(), semid(id)) {
                Ok(t2) => {
                    let d = c.sys.as_types().strict_serialize_value::<{ u32::MAX as usize }>(&t2).map_err(|e| Fail { msg: e.to_string() })?;
                    ensure!(d == data, "serde form {text} of {} of type {} has another meaning: {}", brief_val(val), show(&c.w, t), brief_val(t2.as_val()));
                }
                Err(e) => fail!("serde form {text} of {} of type {} is read as {} and refused: {e}", brief_val(val), show(&c.w, t), brief_val(&back)),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C29

pub static C29: Prop = Prop {
    id: "C29",
    rule: "values of random worlds (all numbers, strings with any characters), displayed and read back by a parser which follows the type and keeps all \
readings of the text",
    subs: &[Sub { name: "ston", quick: 150_000, thorough: 4_000_000, run: c29 }],
    known: &[],
    assumptions: &[],
};

fn paren(m: &Vals, t: &MTy) -> bool {
    match t {
        MTy::Struct(_) => true,
        MTy::Tuple(f) => f.len() > 1 && m.rstring(t).is_none(),
        _ => false,
    }
}
type Alts<'s, T> = Vec<(T, &'s str)>;

fn quoted(s: &str) -> Option<(String, &str)> {
    let mut it = s.strip_prefix('"')?.char_indices();
    let body = &s[1..];
    let mut out = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Some((out, &body[i + 1..])),
            '\\' => out.push(it.next()?.1),
            c => out.push(c),
        }
    }
    None
}
fn ident(s: &str) -> (&str, &str) {
    let n = s.find(|c: char| !c.is_ascii_alphanumeric() && c != '_').unwrap_or(s.len());
    s.split_at(n)
}
fn decimal(code: u8, s: &str) -> Option<(Vec<u8>, &str)> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    if n == 0 || (n > 1 && s.starts_with('0')) || (neg && (!is_signed(code) || s.starts_with('0'))) {
        return None;
    }
    let k = byte_size(code);
    let mut b = vec![0u8; k + 1];
    for d in s[..n].bytes() {
        let mut carry = (d - b'0') as u32;
        for x in b.iter_mut() {
            carry += *x as u32 * 10;
            *x = carry as u8;
            carry >>= 8;
        }
        if carry != 0 {
            return None;
        }
    }
    if neg {
        let mut carry = 1u32;
        for x in b.iter_mut() {
            carry += !*x as u32;
            *x = carry as u8;
            carry >>= 8;
        }
    }
    let top = b.pop().unwrap();
    let fill = if neg { 0xff } else { 0 };
    if top != fill || (is_signed(code) && (b[k - 1] & 0x80 != 0) != neg) {
        return None;
    }
    Some((b, &s[n..]))
}

/// Large numbers are displayed by their 1024-bit representation.
fn long_hex(code: u8, s: &str) -> Option<(Vec<u8>, &str)> {
    let s = s.strip_prefix("0x")?;
    let (h, s) = (s.get(..256)?, s.get(256..)?);
    if !h.is_ascii() {
        return None;
    }
    let mut b: Vec<u8> = (0..128).rev().map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Option<_>>()?;
    let neg = is_signed(code) && b[127] & 0x80 != 0;
    let rest = b.split_off(byte_size(code));
    (!is_small(code) && rest.iter().all(|x| *x == if neg { 0xff } else { 0 })).then_some((b, s))
}

struct Ston<'a, 'b> {
    m: &'a Vals<'b>,
    steps: std::cell::Cell<usize>,
}
impl<'a, 'b> Ston<'a, 'b> {
    /// All readings of the start of the text.
    fn read<'s>(&self, t: &MTy, s: &'s str) -> Alts<'s, MVal> {
        let m = self.m;
        self.steps.set(self.steps.get() + 1);
        if self.steps.get() > 200_000 {
            return vec![];
        }
        let one = |x: Option<(MVal, &'s str)>| x.into_iter().collect::<Vec<_>>();
        // whole text as the items of a collection of characters
        let chars = |r: &Ref, txt: &str| -> Option<Vec<MVal>> {
            match m.ty(r) {
                MTy::Unicode => Some(txt.chars().map(MVal::Char).collect()),
                MTy::Enum(e) => txt.chars().map(|c| e.iter().position(|x| x.1 as u32 == c as u32).map(MVal::Enum)).collect(),
                _ => None,
            }
        };
        let bytes = |s: &'s str| -> Option<(MVal, &'s str)> {
            let s = s.strip_prefix("0x")?;
            let n = s.find(|c: char| !c.is_ascii_digit() && !('a'..='f').contains(&c)).unwrap_or(s.len());
            if n % 2 == 1 {
                return None;
            }
            Some((MVal::Seq((0..n / 2).map(|i| MVal::Prim(vec![u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()])).collect()), &s[n..]))
        };
        match t {
            MTy::Prim(0) => one(s.strip_prefix("(,)").map(|s| (MVal::Prim(vec![]), s))),
            MTy::Prim(c) => one(long_hex(*c, s).or_else(|| decimal(*c, s)).map(|(b, s)| (MVal::Prim(b), s))),
            MTy::Unicode => one(quoted(s).and_then(|(x, s)| {
                let mut c = x.chars();
                let v = MVal::Char(c.next()?);
                c.next().is_none().then_some((v, s))
            })),
            MTy::Enum(e) => {
                let (n, s) = ident(s);
                one(e.iter().position(|x| x.0 == n).map(|i| (MVal::Enum(i), s)))
            }
            MTy::Union(u) => {
                let mut out = vec![];
                let short = u.iter().position(|x| x.0 == "none" && matches!(m.ty(&x.2), MTy::Prim(0)));
                if let (Some(i), Some(s)) = (short, s.strip_prefix('~')) {
                    out.push((MVal::Union(i, Box::new(MVal::Prim(vec![]))), s));
                }
                for (i, (name, _, r)) in u.iter().enumerate() {
                    if short == Some(i) {
                        continue;
                    }
                    for (x, rest) in self.item(m.ty(r), s) {
                        if let Some(rest) = rest.strip_prefix('.') {
                            let (n, rest) = ident(rest);
                            if n == name {
                                out.push((MVal::Union(i, Box::new(x)), rest));
                            }
                        }
                    }
                }
                out
            }
            MTy::Tuple(f) => {
                if let Some((a, b, ..)) = m.rstring(t) {
                    return one(quoted(s).and_then(|(x, s)| {
                        let (MTy::Enum(a), MTy::Enum(b)) = (a, b) else { unreachable!() };
                        let mut it = x.chars();
                        let c = it.next()?;
                        let first = MVal::Enum(a.iter().position(|x| x.1 as u32 == c as u32)?);
                        let rest = it.map(|c| b.iter().position(|x| x.1 as u32 == c as u32).map(MVal::Enum)).collect::<Option<_>>()?;
                        Some((MVal::Seq(vec![first, MVal::Seq(rest)]), s))
                    }));
                }
                let mut alts: Alts<'s, Vec<MVal>> = vec![(vec![], s)];
                for (i, r) in f.iter().enumerate() {
                    alts = self.next(alts, if i > 0 { ", " } else { "" }, m.ty(r));
                }
                alts.into_iter().map(|(v, s)| (MVal::Seq(v), s)).collect()
            }
            MTy::Struct(f) => {
                let mut alts: Alts<'s, Vec<MVal>> = vec![(vec![], s)];
                for (i, (n, r)) in f.iter().enumerate() {
                    alts = self.next(alts, &format!("{}{n} ", if i > 0 { ", " } else { "" }), m.ty(r));
                }
                alts.into_iter().map(|(v, s)| (MVal::Seq(v), s)).collect()
            }
            MTy::Array(r, _) if is_byte(r) => one(bytes(s)),
            MTy::Array(r, _) => self.items("[", "]", r, s),
            MTy::List(r, ..) => match m.text(r) {
                Text::Bytes => one(bytes(s)),
                Text::No => self.items("[", "]", r, s),
                _ => one(quoted(s).and_then(|(x, s)| Some((MVal::Seq(chars(r, &x)?), s)))),
            },
            MTy::Set(r, ..) => self.items("{", "}", r, s),
            MTy::Map(k, r, ..) => {
                let Some(s) = s.strip_prefix('{') else { return vec![] };
                if let Some(s) = s.strip_prefix('}') {
                    return vec![(MVal::Map(vec![]), s)];
                }
                let mut out = vec![];
                let mut open: Alts<'s, Vec<(MVal, MVal)>> = vec![(vec![], s)];
                while let Some((v, s)) = open.pop() {
                    for (key, s) in self.item(m.ty(k), s) {
                        let Some(s) = s.strip_prefix(" -> ") else { continue };
                        for (x, s) in self.item(m.ty(r), s) {
                            let mut v = v.clone();
                            v.push((key.clone(), x));
                            if let Some(s) = s.strip_prefix('}') {
                                out.push((MVal::Map(v.clone()), s));
                            }
                            if let Some(s) = s.strip_prefix(", ") {
                                open.push((v, s));
                            }
                        }
                    }
                }
                out
            }
        }
    }
    fn item<'s>(&self, t: &MTy, s: &'s str) -> Alts<'s, MVal> {
        if !paren(self.m, t) {
            return self.read(t, s);
        }
        let Some(s) = s.strip_prefix('(') else { return vec![] };
        self.read(t, s).into_iter().filter_map(|(v, s)| Some((v, s.strip_prefix(')')?))).collect()
    }
    fn next<'s>(&self, alts: Alts<'s, Vec<MVal>>, sep: &str, t: &MTy) -> Alts<'s, Vec<MVal>> {
        let mut out = vec![];
        for (v, s) in alts {
            let Some(s) = s.strip_prefix(sep) else { continue };
            let mut alts = self.item(t, s);
            if alts.len() == 1 {
                // no copies in the usual case
                let (x, s) = alts.pop().unwrap();
                let mut v = v;
                v.push(x);
                out.push((v, s));
                continue;
            }
            for (x, s) in alts {
                let mut v = v.clone();
                v.push(x);
                out.push((v, s));
            }
        }
        out
    }
    fn items<'s>(&self, open: &str, close: &str, r: &Ref, s: &'s str) -> Alts<'s, MVal> {
        let Some(s) = s.strip_prefix(open) else { return vec![] };
        if let Some(s) = s.strip_prefix(close) {
            return vec![(MVal::Seq(vec![]), s)];
        }
        let mut out = vec![];
        let mut alts: Alts<'s, Vec<MVal>> = self.next(vec![(vec![], s)], "", self.m.ty(r));
        while !alts.is_empty() {
            let (mut done, mut more) = (vec![], vec![]);
            for (v, s) in alts {
                match s.strip_prefix(close) {
                    Some(s) => done.push((MVal::Seq(v), s)),
                    None => more.push((v, s)),
                }
            }
            out.extend(done);
            alts = self.next(more, ", ", self.m.ty(r));
        }
        out
    }
}

fn c29(src: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = setup(src, ctx, WRITABLE)? else { return Ok(()) };
    let m = Vals { w: &c.w };
    for _ in 0..4 {
        let (_, t, _) = choose(src, &c);
        let mut b = budget(src).min(400);
        let Some(mut v) = m.gen(src, t, &mut b) else { continue };
        if src.below(3) == 0 {
            quotes(src, &mut v);
        }
        let val = m.canon(t, &v);
        let text = match guarded(|| val.to_string()) {
            Ok(x) => x,
            Err(p) => fail!("{} can't be displayed: {p}", brief_val(&val)),
        };
        ctx.nontrivial = true;
        ctx.class_if("with quotes", text.contains("\\\""));
        ctx.sample(|| format!("{} :: {text}", show(&c.w, t)));
        let p = Ston { m: &m, steps: Default::default() };
        let alts: Vec<MVal> = p.read(t, &text).into_iter().filter(|x| x.1.is_empty()).map(|x| x.0).collect();
        if p.steps.get() > 200_000 {
            ctx.class("skipped: too many readings");
            continue;
        }
        ensure!(!alts.is_empty(), "text {text} of {} of type {} can't be read", brief_val(&val), show(&c.w, t));
        for a in &alts {
            ensure!(*a == v, "text {text} of {} of type {} also reads as {}", brief_val(&val), show(&c.w, t), brief_val(&m.canon(t, a)));
        }
        // a typed value states also its type
        if let Ok(t) = c.sys.typify(val, semid(choose(src, &c).0)) {
            ensure!(t.to_string().starts_with(&format!("{}@", t.as_val())), "typed value is displayed as {t}");
        }
    }
    Ok(())
}
/// Puts quotes, backslashes and separators into unicode strings.
fn quotes(src: &mut Src, v: &mut MVal) {
    match v {
        MVal::Char(c) if c.is_ascii() && src.bool() => *c = *src.pick(&['"', '\\', ',', ' ', ']', '}', ')', '.', '~']),
        MVal::Union(_, x) => quotes(src, x),
        MVal::Seq(s) => s.iter_mut().take(50).for_each(|x| quotes(src, x)),
        // keys may become equal
        MVal::Map(s) => s.iter_mut().for_each(|x| quotes(src, &mut x.1)),
        _ => {}
    }
}

// ------------------------------------------------------------------ C33

pub static C33: Prop = Prop {
    id: "C33",
    rule: "random versions with up to four, now and then up to 255, pre-release and build fragments",
    subs: &[Sub { name: "version", quick: 60_000, thorough: 1_000_000, run: c33 }],
    known: &[],
    assumptions: &[],
};

fn c33(src: &mut Src, ctx: &mut Ctx) -> Res {
    let id = |src: &mut Src| -> String {
        let a = "abcxyzABCZ_";
        let b = "abcxyzABCZ_0129";
        let n = src.usize(0, 6);
        let mut s = String::from(a.as_bytes()[src.usize(0, a.len() - 1)] as char);
        (0..n).for_each(|_| s.push(b.as_bytes()[src.usize(0, b.len() - 1)] as char));
        s
    };
    let num = |src: &mut Src| match src.below(3) {
        0 => src.below(10) as u16,
        1 => u16::MAX,
        _ => src.u64() as u16,
    };
    let mut v = SemVer::new(num(src), num(src), num(src));
    let (mut pre, mut build) = (vec![], vec![]);
    let count = |src: &mut Src| if src.below(100) == 0 { *src.pick(&[16u64, 127, 128, 129, 254, 255]) } else { src.below(5) };
    for _ in 0..count(src) {
        if src.bool() {
            let n = src.u128() >> src.below(128);
            v.pre.push(PreFragment::Digits(n)).unwrap();
            pre.push(n.to_string());
        } else {
            let s = id(src);
            v.pre.push(PreFragment::Ident(strict_encoding::Ident::try_from(s.clone()).unwrap())).unwrap();
            pre.push(s);
        }
    }
    for _ in 0..count(src) {
        let s = id(src);
        let i = strict_encoding::Ident::try_from(s.clone()).unwrap();
        v.build.push(if src.bool() { BuildFragment::Ident(i) } else { BuildFragment::Digits(i) }).unwrap();
        build.push(s);
    }
    ctx.nontrivial = !pre.is_empty() || !build.is_empty();
    let mut want = format!("{}.{}.{}", v.major, v.minor, v.patch);
    if !pre.is_empty() {
        want.push('-');
        want.push_str(&pre.join("."));
    }
    if !build.is_empty() {
        want.push('+');
        want.push_str(&build.join("."));
    }
    ctx.sample(|| want.clone());
    let got = v.to_string();
    ensure!(got == want, "version {v:?} is displayed as {got} instead of {want}");
    let b = ser(&v);
    let (w, n) = de::<SemVer>(&b).map_err(|e| Fail { msg: format!("version {got} isn't decoded: {e}") })?;
    ensure!(w == v && n == b.len(), "version {got} decodes as {w}");
    Ok(())
}


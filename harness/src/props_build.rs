//! Constructors, conversions and macros building values and types.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::{i1024, u1024, u24, u40, u48, u56};
use strict_encoding::{fname, vname, Primitive, Sizing};
use strict_types::ast::{EnumVariants, Field, NamedFields, Ty, UnionVariants, UnnamedFields};
use strict_types::value::{Blob, EnumTag, KeyStep, Path, Step, StrictNum};
use strict_types::{fields, ston, sv, svbytes, svenum, svlist, svnewtype, svnone, svnum, svset, svsome, svstr, svtable, variants, SemId, StrictVal};

use crate::engine::*;
use crate::model::*;
use crate::props_val::brief_val;
use crate::util::*;

pub const PROPS: &[&Prop] = &[&C31];

pub static C31: Prop = Prop {
    id: "C31",
    rule: "random numbers of every width, texts, byte strings, options and sequences of them passed through each constructor, conversion and macro and compared with the value spelled out \
           by enum variants; random members passed through type constructors and macros; non-trivial: a number which does not fit the next smaller width, or a text or sequence of two items or more",
    subs: &[Sub { name: "values", quick: 60_000, thorough: 3_000_000, run: c31_values }, Sub { name: "types", quick: 30_000, thorough: 1_000_000, run: c31_types }],
    known: &[],
    assumptions: &["conversions between integers of the amplify and standard libraries are right"],
};

fn same(what: &str, got: StrictVal, want: StrictVal) -> Res {
    ensure!(got == want, "{what} gives {} and not {}", brief_val(&got), brief_val(&want));
    Ok(())
}

fn word(src: &mut Src) -> String {
    let n = src.usize(0, 6);
    (0..n).map(|_| *src.pick(&['a', 'Z', '0', '_', ' ', '"', '\\', '\n', 'é', '中', '🦀'])).collect()
}

fn c31_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.u64() >> src.below(64);
    let un = |x: u64| StrictVal::Number(StrictNum::Uint(x));
    let int = |x: i64| StrictVal::Number(StrictNum::Int(x));
    macro_rules! uint {
        ($($t:ty, $x:expr;)*) => { $( {
            let x: $t = $x;
            let want = un(u64::from(x));
            same(concat!("conversion of ", stringify!($t)), StrictVal::from(x), want.clone())?;
            same(concat!("num of ", stringify!($t)), StrictVal::num(x), want.clone())?;
            same(concat!("svnum of ", stringify!($t)), svnum!(x), want.clone())?;
            same(concat!("sv of ", stringify!($t)), sv!(x), want.clone())?;
            same(concat!("ston of ", stringify!($t)), ston!(x), want.clone())?;
            same(concat!("some of ", stringify!($t)), StrictVal::from(Some(x)), StrictVal::Union(EnumTag::Name(vname!("some")), Box::new(want)))?;
            same(concat!("none of ", stringify!($t)), StrictVal::from(None::<$t>), StrictVal::Union(EnumTag::Name(vname!("none")), Box::new(StrictVal::Unit)))?;
        } )* };
    }
    uint! {
        u8, n as u8;
        u16, n as u16;
        u24, u24::try_from(n as u32 & 0xff_ffff).unwrap();
        u32, n as u32;
        u40, u40::try_from(n & 0xff_ffff_ffff).unwrap();
        u48, u48::try_from(n & 0xffff_ffff_ffff).unwrap();
        u56, u56::try_from(n & 0xff_ffff_ffff_ffff).unwrap();
        u64, n;
    }
    macro_rules! sint {
        ($($t:ty),*) => { $( {
            let x = n as $t;
            for x in [x, x.wrapping_neg()] {
                let want = int(i64::from(x));
                same(concat!("conversion of ", stringify!($t)), StrictVal::from(x), want.clone())?;
                same(concat!("num of ", stringify!($t)), StrictVal::num(x), want.clone())?;
                same(concat!("svnum of ", stringify!($t)), svnum!(x), want.clone())?;
                same(concat!("sv of ", stringify!($t)), sv!(x), want)?;
            }
        } )* };
    }
    sint!(i8, i16, i32, i64);
    let big: [u8; 128] = src.bytes(128).try_into().unwrap();
    let (bu, bi) = (u1024::from_le_bytes(big), i1024::from_le_bytes(big));
    same("num of u1024", StrictVal::num(bu), StrictVal::Number(StrictNum::BigUint(bu)))?;
    same("num of i1024", StrictVal::num(bi), StrictVal::Number(StrictNum::BigInt(bi)))?;
    // narrowing gives the number, or refuses
    macro_rules! narrow {
        ($($t:ty),*) => { $( {
            let got = guarded(|| StrictNum::Uint(n).unwrap_uint::<$t>()).ok();
            ensure!(got == <$t>::try_from(n).ok(), "unwrap_uint::<{}> of {n} is {got:?}", stringify!($t));
            let got = guarded(|| StrictNum::Int(n as i64).unwrap_uint::<$t>()).ok();
            ensure!(got.is_none(), "unwrap_uint::<{}> of a signed number is {got:?}", stringify!($t));
        } )* };
    }
    narrow!(u8, u16, u32, u64);

    let s = word(src);
    for v in [StrictVal::from(s.clone()), StrictVal::from(s.as_str()), StrictVal::str(&s), StrictVal::str(s.as_str()), svstr!(&s), sv!(s.as_str()), ston!(s.as_str())] {
        same("text", v, StrictVal::String(s.clone()))?;
    }
    let len = src.usize(0, 5);
    let b = src.bytes(len);
    let want = StrictVal::Bytes(Blob(b.clone()));
    for v in [StrictVal::bytes(&b), StrictVal::bytes(b.clone()), svbytes!(&b), StrictVal::from(Blob::from(b.clone())), sv!(Blob(b.clone()))] {
        same("bytes", v, want.clone())?;
    }
    let h = hex(&b);
    ensure!(Blob(b.clone()).to_string() == h, "bytes {h} are displayed as {}", Blob(b.clone()));
    let parsed = <Blob as amplify::hex::FromHex>::from_hex(&h);
    ensure!(parsed == Ok(Blob(b.clone())), "bytes {h} are parsed as {parsed:?}");
    same("unit", StrictVal::from(()), StrictVal::Unit)?;

    // composite values of leaves in a random order
    let k = src.usize(0, 4);
    let items: Vec<StrictVal> = (0..k)
        .map(|i| match src.below(4) {
            0 => un(n ^ i as u64),
            1 => StrictVal::String(s.clone()),
            2 => want.clone(),
            _ => StrictVal::Tuple(vec![int(i as i64)]),
        })
        .collect();
    same("tuple", StrictVal::tuple(&items), StrictVal::Tuple(items.clone()))?;
    same("tuple", StrictVal::tuple(items.clone()), StrictVal::Tuple(items.clone()))?;
    for v in [StrictVal::list(&items), svlist!(&items), StrictVal::list(items.clone())] {
        same("list", v, StrictVal::List(items.clone()))?;
    }
    for v in [StrictVal::set(&items), svset!(&items), StrictVal::set(items.clone())] {
        same("set", v, StrictVal::Set(items.clone()))?;
    }
    let x = items.first().cloned().unwrap_or(StrictVal::Unit);
    let y = items.last().cloned().unwrap_or(StrictVal::Unit);
    for v in [StrictVal::newtype(&x), svnewtype!(&x), StrictVal::newtype(x.clone()), StrictVal::tuple([&x])] {
        same("newtype", v, StrictVal::Tuple(vec![x.clone()]))?;
    }
    ensure!(StrictVal::newtype(StrictVal::newtype(&want)).skip_wrapper() == &want, "skip_wrapper");
    let pairs: Vec<(StrictVal, StrictVal)> = items.iter().cloned().zip(items.iter().rev().cloned()).collect();
    for v in [StrictVal::map(pairs.clone()), svtable!(pairs.clone())] {
        same("map", v, StrictVal::Map(pairs.clone()))?;
    }
    let fields = StrictVal::Struct([(fname!("first"), x.clone()), (fname!("other"), y.clone()), (fname!("amount"), un(n))].into_iter().collect());
    for v in [
        StrictVal::struc([("first", &x), ("other", &y), ("amount", &un(n))]),
        ston!(first x.clone(), other y.clone(), amount un(n)),
    ] {
        ensure!(
            v == fields && matches!(&v, StrictVal::Struct(f) if f.keys().map(|k| k.as_str()).eq(["first", "other", "amount"])),
            "structure is {}",
            brief_val(&v)
        );
    }
    same("ston tuple", ston!(&x, &y), StrictVal::Tuple(vec![x.clone(), y.clone()]))?;
    same("ston tuple", ston!(n, s.as_str(), &y), StrictVal::Tuple(vec![un(n), StrictVal::String(s.clone()), y.clone()]))?;
    let tag = n as u8;
    let name = EnumTag::Name(vname!("maybe"));
    for v in [StrictVal::enumer("maybe"), svenum!("maybe"), svenum!(maybe), StrictVal::enumer(vname!("maybe")), StrictVal::from(EnumTag::from("maybe"))] {
        same("enum by name", v, StrictVal::Enum(name.clone()))?;
    }
    for v in [StrictVal::enumer(tag), StrictVal::from(EnumTag::from(tag))] {
        same("enum by tag", v, StrictVal::Enum(EnumTag::Ord(tag)))?;
    }
    same("enum by tag", svenum!(7u8), StrictVal::Enum(EnumTag::Ord(7)))?;
    ensure!(EnumTag::Ord(tag).unwrap_ord() == tag, "unwrap_ord of {tag}");
    ensure!(guarded(|| name.unwrap_ord()).is_err(), "unwrap_ord of a name");
    same("false", StrictVal::bool(false), StrictVal::Enum(EnumTag::Ord(0)))?;
    same("true", StrictVal::bool(true), StrictVal::Enum(EnumTag::Ord(1)))?;
    let un = |t: &'static str, v: &StrictVal| StrictVal::Union(EnumTag::Name(vname!(t)), Box::new(v.clone()));
    for v in [StrictVal::union("maybe", &x), StrictVal::union(vname!("maybe"), x.clone()), ston!("maybe" x.clone()), ston!(maybe x.clone())] {
        same("union by name", v, un("maybe", &x))?;
    }
    same("union by tag", StrictVal::union(tag, &x), StrictVal::Union(EnumTag::Ord(tag), Box::new(x.clone())))?;
    for v in [StrictVal::some(&x), svsome!(&x), ston!(some x.clone()), StrictVal::from(Some(&x))] {
        same("some", v.clone(), un("some", &x))?;
        ensure!(v.unwrap_option() == Some(&x), "option of {}", brief_val(&v));
    }
    for v in [StrictVal::none(), svnone!(), ston!(~), StrictVal::from(None::<&str>)] {
        same("none", v.clone(), un("none", &StrictVal::Unit))?;
        ensure!(v.unwrap_option().is_none(), "option of {}", brief_val(&v));
    }
    same("option in option", StrictVal::from(Some(None::<u8>)), un("some", &un("none", &StrictVal::Unit)))?;
    same("reference", StrictVal::from(&fields), fields.clone())?;

    // a key step finds what it names
    let (key, val) = match src.below(4) {
        0 => (KeyStep::from(n as u128), StrictVal::from(n)),
        1 => (KeyStep::from(tag as u128), StrictVal::enumer(tag)),
        2 => (KeyStep::from(Confined::try_from(b.clone()).unwrap()), StrictVal::bytes(&b)),
        _ => (KeyStep::from(Confined::try_from(s.clone()).unwrap()), StrictVal::str(&s)),
    };
    ensure!(key.has_match(&val), "key {key:?} does not match {}", brief_val(&val));
    for v in [&un("some", &val), &StrictVal::List(vec![val.clone()]), &StrictVal::Unit] {
        ensure!(!key.has_match(v), "key {key:?} matches {}", brief_val(v));
    }
    let step = Step::from(key);
    ensure!(Path::with(step.clone()).iter().eq([&step]) && Path::new().iter().next().is_none(), "path of one step");

    ctx.nontrivial = n > 255 || s.chars().count() > 1 || k > 1;
    ctx.class_if("number above 32 bits", n >> 32 > 0);
    ctx.class_if("sequence", k > 1);
    ctx.sample(|| format!("{n} {s:?} {h} {}", items.iter().map(brief_val).collect::<Vec<_>>().join(" ")));
    Ok(())
}

/// Names which follow each other in no particular order.
fn names(src: &mut Src, n: usize) -> Vec<String> {
    let mut used = BTreeSet::new();
    (0..n)
        .map(|_| {
            let base = field_name(src, &LIB_GEN);
            uniq(&mut used, base)
        })
        .collect()
}

fn c31_types(src: &mut Src, ctx: &mut Ctx) -> Res {
    type T = Ty<SemId>;
    let r: Vec<SemId> = (0..4).map(|_| semid(src.bytes(32).try_into().unwrap())).collect();
    let consts: [(T, u8); 30] = [
        (T::UNIT, 0x00),
        (T::BYTE, 0x40),
        (T::U8, 0x01),
        (T::U16, 0x02),
        (T::U24, 0x03),
        (T::U32, 0x04),
        (T::U40, 0x05),
        (T::U48, 0x06),
        (T::U56, 0x07),
        (T::U64, 0x08),
        (T::U128, 0x10),
        (T::U256, 0x20),
        (T::U512, 0x22),
        (T::U1024, 0x26),
        (T::I8, 0x41),
        (T::I16, 0x42),
        (T::I24, 0x43),
        (T::I32, 0x44),
        (T::I64, 0x48),
        (T::I128, 0x50),
        (T::I256, 0x60),
        (T::I512, 0x62),
        (T::I1024, 0x66),
        (T::F16B, 0xC0),
        (T::F16, 0xC2),
        (T::F32, 0xC4),
        (T::F64, 0xC8),
        (T::F80, 0xCA),
        (T::F128, 0xD0),
        (T::F256, 0xE0),
    ];
    let (t, code) = src.pick(&consts).clone();
    ensure!(ser(&t) == [0, code], "type constant {t} is {}, code {code:02x} expected", hex(&ser(&t)));
    ensure!(t == Ty::from(Primitive::from_code(code)) && t.is_primitive() && !t.is_collection() && !t.is_compound(), "type constant {t}");
    ensure!(ser(&T::UNICODE) == [1], "unicode");

    let n = match src.weighted(&[8, 2, 1]) {
        0 => src.usize(1, 5),
        1 => src.usize(6, 40),
        _ => *src.pick(&[254usize, 255]),
    };
    let nm = names(src, n);
    let tags: Vec<u8> = {
        let mut all: Vec<u8> = (0..=255).collect();
        src.shuffle(&mut all);
        all.truncate(n);
        all
    };
    // members given in any order
    let e = EnumVariants::try_from(nm.iter().zip(&tags).map(|(n, t)| variant(n, *t)).collect::<BTreeSet<_>>());
    let e = e.map_err(|e| Fail { msg: format!("enumeration of {n}: {e}") })?;
    let mut order: Vec<(u8, &str)> = tags.iter().copied().zip(nm.iter().map(|x| x.as_str())).collect();
    order.sort();
    let listed = |v: &mut dyn Iterator<Item = (u8, String)>| v.map(|(t, n)| (t, n)).eq(order.iter().map(|(t, n)| (*t, n.to_string())));
    ensure!(listed(&mut e.iter().map(|v| (v.tag, v.name.to_string()))), "enumeration lists {e}");
    ensure!(listed(&mut (&e).into_iter().map(|v| (v.tag, v.name.to_string()))), "enumeration lists {e}");
    ensure!(listed(&mut e.clone().into_iter().map(|v| (v.tag, v.name.to_string()))), "enumeration lists {e}");
    ensure!(listed(&mut e.clone().into_inner().iter().map(|v| (v.tag, v.name.to_string()))), "enumeration lists {e}");
    ensure!(T::enumerate(e.clone()) == Ty::Enum(e.clone()) && T::from(e.clone()) == Ty::Enum(e.clone()), "enumeration type");
    let refs: Vec<SemId> = (0..n).map(|_| *src.pick(&r)).collect();
    let u = UnionVariants::try_from(nm.iter().zip(&tags).zip(&refs).map(|((n, t), r)| (variant(n, *t), *r)).collect::<BTreeMap<_, _>>());
    let u = u.map_err(|e| Fail { msg: format!("union of {n}: {e}") })?;
    let by_tag: BTreeMap<u8, SemId> = tags.iter().copied().zip(refs.iter().copied()).collect();
    ensure!(listed(&mut u.iter().map(|(v, _)| (v.tag, v.name.to_string()))), "union lists {u}");
    ensure!(listed(&mut u.clone().into_keys().map(|v| (v.tag, v.name.to_string()))), "union keys");
    ensure!(u.clone().into_values().eq(by_tag.values().copied()), "union values");
    ensure!(u.clone().into_iter().map(|(_, r)| r).eq(by_tag.values().copied()) && (&u).into_iter().map(|(_, r)| *r).eq(by_tag.values().copied()), "union items");
    ensure!(u.clone().into_inner().into_iter().map(|(v, r)| (v.tag, r)).eq(by_tag.iter().map(|(t, r)| (*t, *r))), "union inner");
    ensure!(u.unwrap_first().tag == order[0].0 && u.unwrap_first().name.as_str() == order[0].1, "first variant");
    ensure!(u.unwrap_last().tag == order[n - 1].0 && u.unwrap_last().name.as_str() == order[n - 1].1, "last variant");
    ensure!(T::union(u.clone()) == Ty::Union(u.clone()) && T::from(u.clone()) == Ty::Union(u.clone()), "union type");
    let f = NamedFields::try_from(nm.iter().zip(&refs).map(|(n, r)| Field { name: fieldname(n), ty: *r }).collect::<Vec<_>>());
    let f = f.map_err(|e| Fail { msg: format!("structure of {n}: {e}") })?;
    let fields_are = |v: &mut dyn Iterator<Item = Field<SemId>>| v.map(|f| (f.name.to_string(), f.ty)).eq(nm.iter().cloned().zip(refs.iter().copied()));
    ensure!(fields_are(&mut f.iter().cloned()) && fields_are(&mut f.clone().into_iter()), "structure lists {f}");
    ensure!(fields_are(&mut (&f).into_iter().cloned()) && fields_are(&mut f.clone().into_inner().into_iter()), "structure lists {f}");
    ensure!(T::struc(f.clone()) == Ty::Struct(f.clone()) && T::from(f.clone()) == Ty::Struct(f.clone()), "structure type");
    let t = UnnamedFields::try_from(refs.clone()).map_err(|e| Fail { msg: format!("tuple of {n}: {e}") })?;
    ensure!(t.iter().eq(&refs) && t.clone().into_iter().eq(refs.iter().copied()) && (&t).into_iter().eq(&refs) && t.clone().into_inner() == refs, "tuple lists {t}");
    ensure!(T::tuple(t.clone()) == Ty::Tuple(t.clone()) && T::from(t.clone()) == Ty::Tuple(t.clone()), "tuple type");
    ensure!(T::tuple(t).is_newtype() == (n == 1), "newtype");
    let z = sizing(src);
    let z = Sizing::new(z.0, z.1);
    ensure!(T::list(r[0], z) == Ty::List(r[0], z) && T::set(r[1], z) == Ty::Set(r[1], z) && T::map(r[2], r[3], z) == Ty::Map(r[2], r[3], z), "collection type");
    // no members at all, or too many
    ensure!(EnumVariants::try_from(BTreeSet::new()).is_err() && UnionVariants::<SemId>::try_from(BTreeMap::new()).is_err(), "no variants");
    ensure!(NamedFields::<SemId>::try_from(vec![]).is_err() && UnnamedFields::<SemId>::try_from(vec![]).is_err(), "no fields");
    ensure!(UnnamedFields::try_from(vec![r[0]; 256]).is_err(), "256 fields");
    ensure!(UnionVariants::try_from((0..=255u8).map(|t| (variant(&format!("v{t}"), t), r[0])).collect::<BTreeMap<_, _>>()).is_err(), "256 variants");
    ensure!(EnumVariants::try_from((0..=255u8).map(|t| variant(&format!("v{t}"), t)).collect::<BTreeSet<_>>()).is_err(), "256 variants");

    // macros
    let m: UnnamedFields<SemId> = fields!(r[0], r[1], r[2]);
    ensure!(m.iter().eq(&r[..3]), "tuple macro");
    let m: NamedFields<SemId> = fields!("zeta" => r[0], "alpha" => r[1], "mid" => r[2]);
    ensure!(m.iter().map(|f| (f.name.as_str(), f.ty)).eq([("zeta", r[0]), ("alpha", r[1]), ("mid", r[2])]), "structure macro");
    let m: NamedFields<SemId> = fields!(fieldname(&nm[0]) => r[3]);
    ensure!(m.iter().map(|f| (f.name.as_str(), f.ty)).eq([(nm[0].as_str(), r[3])]), "structure macro");
    let m: UnionVariants<SemId> = variants!("zeta" => r[0], "alpha" => r[1], "mid" => r[2], "beta" => r[3]);
    ensure!(
        m.iter().map(|(v, r)| (v.tag, v.name.as_str(), *r)).eq([(0, "zeta", r[0]), (1, "alpha", r[1]), (2, "mid", r[2]), (3, "beta", r[3])]),
        "union macro gives {m}"
    );
    let m: UnionVariants<SemId> = variants!("zeta" => 200 => r[0], "alpha" => 0 => r[1], "mid" => 255 => r[2]);
    ensure!(m.iter().map(|(v, r)| (v.tag, v.name.as_str(), *r)).eq([(0, "alpha", r[1]), (200, "zeta", r[0]), (255, "mid", r[2])]), "union macro gives {m}");
    let m: EnumVariants = variants!("zeta", "alpha", "mid", "beta", "gamma");
    ensure!(m.iter().map(|v| (v.tag, v.name.as_str())).eq([(0, "zeta"), (1, "alpha"), (2, "mid"), (3, "beta"), (4, "gamma")]), "enumeration macro gives {m}");
    let (m, a, b): (EnumVariants, u8, u8) = match src.below(4) {
        0 => (variants!(0..=0), 0, 0),
        1 => (variants!(1..=16), 1, 16),
        2 => (variants!(200..=255), 200, 255),
        _ => (variants!(0..=254), 0, 254),
    };
    ensure!(m.iter().map(|v| (v.tag, v.name.to_string())).eq((a..=b).map(|t| (t, format!("_{t}")))), "range macro gives {m}");

    ctx.nontrivial = n > 1;
    ctx.class_if("more than 200 members", n > 200);
    ctx.class_if("more than 12 members", n > 12);
    ctx.sample(|| format!("{n} members, tags {:?}, names {:?}", &tags[..n.min(6)], &nm[..n.min(6)]));
    Ok(())
}

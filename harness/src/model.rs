//! Independent schema model: libraries of types, their semantic ids, their binary form, and
//! conversions into the objects of the crate under test.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use sha2::{Digest, Sha256};
use strict_encoding::{FieldName, LibName, Primitive, Sizing, TypeName, Variant, VariantName};
use strict_types::ast::{EnumVariants, Field, NamedFields, UnionVariants, UnnamedFields};
use strict_types::typelib::{ExternRef, ExternTypes, InlineRef, InlineRef1, InlineRef2};
use strict_types::{Dependency, LibRef, SemId, Ty, TypeLib, TypeLibId, TypeRef};

use crate::engine::Src;

pub type Id = [u8; 32];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ref {
    Inline(Box<MTy>),
    /// library index, type index
    Named(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MTy {
    Prim(u8),
    Unicode,
    Enum(Vec<(String, u8)>),
    Union(Vec<(String, u8, Ref)>),
    Tuple(Vec<Ref>),
    Struct(Vec<(String, Ref)>),
    Array(Ref, u16),
    List(Ref, u64, u64),
    Set(Ref, u64, u64),
    Map(Ref, Ref, u64, u64),
}

#[derive(Clone, Debug, Default)]
pub struct MLib {
    pub name: String,
    pub types: Vec<(String, MTy)>,
}

#[derive(Clone, Debug, Default)]
pub struct World {
    pub libs: Vec<MLib>,
    /// libraries list all external types they refer to, directly and through other external types
    /// (as the library builder does), and not only the direct ones
    pub transitive: bool,
}

// ------------------------------------------------------------------ byte writer

#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u8(&mut self, x: u8) { self.0.push(x) }
    pub fn u16(&mut self, x: u16) { self.0.extend(x.to_le_bytes()) }
    pub fn u24(&mut self, x: usize) { self.0.extend(&(x as u32).to_le_bytes()[..3]) }
    pub fn u64(&mut self, x: u64) { self.0.extend(x.to_le_bytes()) }
    pub fn name(&mut self, s: &str) {
        self.u8(s.len() as u8);
        self.0.extend(s.as_bytes());
    }
    pub fn raw(&mut self, b: &[u8]) { self.0.extend(b) }
}

pub fn tagged(tag: &[u8], data: &[u8]) -> Id {
    let t = Sha256::digest(tag);
    let mut h = Sha256::new();
    h.update(t);
    h.update(t);
    h.update(data);
    h.finalize().into()
}

impl MTy {
    pub fn cls_tag(&self) -> u8 {
        match self {
            MTy::Prim(_) => 0,
            MTy::Unicode => 1,
            MTy::Enum(_) => 3,
            MTy::Union(_) => 4,
            MTy::Struct(_) => 5,
            MTy::Tuple(_) => 6,
            MTy::Array(..) => 7,
            MTy::List(..) => 8,
            MTy::Set(..) => 9,
            MTy::Map(..) => 10,
        }
    }
    pub fn refs(&self) -> Vec<&Ref> {
        match self {
            MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => vec![],
            MTy::Union(v) => v.iter().map(|x| &x.2).collect(),
            MTy::Struct(v) => v.iter().map(|x| &x.1).collect(),
            MTy::Tuple(v) => v.iter().collect(),
            MTy::Array(r, _) | MTy::List(r, ..) | MTy::Set(r, ..) => vec![r],
            MTy::Map(k, v, ..) => vec![k, v],
        }
    }
    pub fn refs_mut(&mut self) -> Vec<&mut Ref> {
        match self {
            MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => vec![],
            MTy::Union(v) => v.iter_mut().map(|x| &mut x.2).collect(),
            MTy::Struct(v) => v.iter_mut().map(|x| &mut x.1).collect(),
            MTy::Tuple(v) => v.iter_mut().collect(),
            MTy::Array(r, _) | MTy::List(r, ..) | MTy::Set(r, ..) => vec![r],
            MTy::Map(k, v, ..) => vec![k, v],
        }
    }
    /// Structural commitment, `f` gives the commitment of a reference.
    pub fn commit(&self, w: &mut W, f: &dyn Fn(&Ref, &mut W)) {
        w.u8(self.cls_tag());
        match self {
            MTy::Prim(c) => w.u8(*c),
            MTy::Unicode => {}
            MTy::Enum(v) => {
                let mut v: Vec<_> = v.iter().collect();
                v.sort_by_key(|x| x.1);
                for (n, t) in v {
                    w.name(n);
                    w.u8(*t);
                }
            }
            MTy::Union(v) => {
                let mut v: Vec<_> = v.iter().collect();
                v.sort_by_key(|x| x.1);
                for (n, t, r) in v {
                    w.name(n);
                    w.u8(*t);
                    f(r, w);
                }
            }
            MTy::Struct(v) => {
                for (n, r) in v {
                    w.name(n);
                    f(r, w);
                }
            }
            MTy::Tuple(v) => v.iter().for_each(|r| f(r, w)),
            MTy::Array(r, n) => {
                f(r, w);
                w.u16(*n);
            }
            MTy::List(r, a, b) | MTy::Set(r, a, b) => {
                f(r, w);
                w.u64(*a);
                w.u64(*b);
            }
            MTy::Map(k, v, a, b) => {
                f(k, w);
                f(v, w);
                w.u64(*a);
                w.u64(*b);
            }
        }
    }
    /// Binary form, `f` writes a reference.
    pub fn encode(&self, w: &mut W, f: &dyn Fn(&Ref, &mut W)) {
        w.u8(match self {
            MTy::Struct(_) => 6,
            MTy::Tuple(_) => 5,
            t => t.cls_tag(),
        });
        match self {
            MTy::Prim(c) => w.u8(*c),
            MTy::Unicode => {}
            MTy::Enum(v) => {
                let mut v: Vec<_> = v.iter().collect();
                v.sort_by_key(|x| x.1);
                w.u8(v.len() as u8);
                for (n, t) in v {
                    w.name(n);
                    w.u8(*t);
                }
            }
            MTy::Union(v) => {
                let mut v: Vec<_> = v.iter().collect();
                v.sort_by_key(|x| x.1);
                w.u8(v.len() as u8);
                for (n, t, r) in v {
                    w.u8(*t);
                    w.name(n);
                    f(r, w);
                }
            }
            MTy::Struct(v) => {
                w.u8(v.len() as u8);
                for (n, r) in v {
                    w.name(n);
                    f(r, w);
                }
            }
            MTy::Tuple(v) => {
                w.u8(v.len() as u8);
                v.iter().for_each(|r| f(r, w));
            }
            MTy::Array(r, n) => {
                f(r, w);
                w.u16(*n);
            }
            MTy::List(r, a, b) | MTy::Set(r, a, b) => {
                f(r, w);
                w.u64(*a);
                w.u64(*b);
            }
            MTy::Map(k, v, a, b) => {
                f(k, w);
                f(v, w);
                w.u64(*a);
                w.u64(*b);
            }
        }
    }
    /// Conversion into the type of the crate.
    pub fn to_ty<R: TypeRef>(&self, f: &dyn Fn(&Ref) -> R) -> Ty<R> {
        match self {
            MTy::Prim(c) => Ty::Primitive(prim(*c)),
            MTy::Unicode => Ty::UnicodeChar,
            MTy::Enum(v) => Ty::Enum(EnumVariants::try_from(v.iter().map(|(n, t)| variant(n, *t)).collect::<BTreeSet<_>>()).unwrap()),
            MTy::Union(v) => Ty::Union(
                UnionVariants::try_from(v.iter().map(|(n, t, r)| (variant(n, *t), f(r))).collect::<BTreeMap<_, _>>()).unwrap(),
            ),
            MTy::Struct(v) => Ty::Struct(
                NamedFields::try_from(v.iter().map(|(n, r)| Field { name: fieldname(n), ty: f(r) }).collect::<Vec<_>>()).unwrap(),
            ),
            MTy::Tuple(v) => Ty::Tuple(UnnamedFields::try_from(v.iter().map(f).collect::<Vec<_>>()).unwrap()),
            MTy::Array(r, n) => Ty::Array(f(r), *n),
            MTy::List(r, a, b) => Ty::List(f(r), Sizing::new(*a, *b)),
            MTy::Set(r, a, b) => Ty::Set(f(r), Sizing::new(*a, *b)),
            MTy::Map(k, v, a, b) => Ty::Map(f(k), f(v), Sizing::new(*a, *b)),
        }
    }
}

pub fn prim(c: u8) -> Primitive { Primitive::from_code(c) }
pub fn variant(n: &str, t: u8) -> Variant { Variant { name: VariantName::try_from(n.to_string()).unwrap(), tag: t } }
pub fn fieldname(n: &str) -> FieldName { FieldName::try_from(n.to_string()).unwrap() }
pub fn tyname(n: &str) -> TypeName { TypeName::try_from(n.to_string()).unwrap() }
pub fn liname(n: &str) -> LibName { LibName::try_from(n.to_string()).unwrap() }
pub fn semid(i: Id) -> SemId { SemId::from_byte_array(i) }
pub fn libid(i: Id) -> TypeLibId { TypeLibId::from_byte_array(i) }

pub const TYP_TAG: &[u8] = b"urn:ubideco:strict-types:typ:v01";
pub const LIB_TAG: &[u8] = b"urn:ubideco:strict-types:lib:v01";
pub const SYS_TAG: &[u8] = b"urn:ubideco:strict-types:sys:v01";

/// A world together with all ids it defines.
pub struct Ids {
    /// semantic ids of named types per library
    pub types: Vec<Vec<Id>>,
    pub libs: Vec<Id>,
}

impl World {
    /// A library; of many ones the last, which depends on all of the others, is taken more often.
    pub fn any_lib(&self, src: &mut Src) -> usize {
        let last = self.libs.len() - 1;
        if last > 7 && src.below(3) == 0 { last } else { src.usize(0, last) }
    }

    pub fn commit_ref(ids: &[Vec<Id>], r: &Ref, w: &mut W) {
        match r {
            Ref::Inline(t) => t.commit(w, &|r, w| Self::commit_ref(ids, r, w)),
            Ref::Named(l, t) => w.raw(&ids[*l][*t]),
        }
    }
    pub fn sem_id(ids: &[Vec<Id>], name: Option<&str>, t: &MTy) -> Id {
        let mut w = W::default();
        if let Some(n) = name {
            w.name(n);
        }
        t.commit(&mut w, &|r, w| Self::commit_ref(ids, r, w));
        tagged(TYP_TAG, &w.0)
    }
    /// Libraries this library refers to, directly.
    pub fn deps(&self, l: usize) -> BTreeSet<usize> {
        fn walk(t: &MTy, out: &mut BTreeSet<usize>) {
            for r in t.refs() {
                match r {
                    Ref::Inline(t) => walk(t, out),
                    Ref::Named(l, _) => {
                        out.insert(*l);
                    }
                }
            }
        }
        let mut out = BTreeSet::new();
        self.libs[l].types.iter().for_each(|(_, t)| walk(t, &mut out));
        if self.transitive {
            out.extend(self.externs(l).into_iter().map(|x| x.0));
        }
        out.remove(&l);
        out
    }
    /// External types (library, type) a library refers to.
    pub fn externs(&self, l: usize) -> BTreeSet<(usize, usize)> {
        fn walk(t: &MTy, me: usize, out: &mut BTreeSet<(usize, usize)>) {
            for r in t.refs() {
                match r {
                    Ref::Inline(t) => walk(t, me, out),
                    Ref::Named(l, t) if *l != me => {
                        out.insert((*l, *t));
                    }
                    _ => {}
                }
            }
        }
        let mut out = BTreeSet::new();
        self.libs[l].types.iter().for_each(|(_, t)| walk(t, l, &mut out));
        while self.transitive {
            let n = out.len();
            for (el, et) in out.clone() {
                walk(&self.libs[el].types[et].1, l, &mut out);
            }
            if out.len() == n {
                break;
            }
        }
        out
    }
    /// Types only refer to types generated before them, so one pass computes every id.
    pub fn ids(&self) -> Ids {
        let mut types: Vec<Vec<Id>> = vec![];
        let mut libs: Vec<Id> = vec![];
        for (l, lib) in self.libs.iter().enumerate() {
            types.push(vec![]);
            for (n, t) in &lib.types {
                let id = Self::sem_id(&types, Some(n), t);
                types[l].push(id);
            }
            let mut w = W::default();
            w.name(&lib.name);
            let mut d: Vec<Id> = self.deps(l).into_iter().map(|x| libs[x]).collect();
            d.sort();
            w.u8(d.len() as u8);
            d.iter().for_each(|x| w.raw(x));
            let mut t: Vec<(&str, Id)> = lib.types.iter().zip(&types[l]).map(|((n, _), id)| (n.as_str(), *id)).collect();
            t.sort();
            w.u16(t.len() as u16);
            t.iter().for_each(|x| w.raw(&x.1));
            libs.push(tagged(LIB_TAG, &w.0));
        }
        Ids { types, libs }
    }

    // -------------------------------------------------------- compiled form

    fn ext(&self, ids: &Ids, l: usize, t: usize) -> ExternRef { ExternRef::with(libid(ids.libs[l]), semid(ids.types[l][t])) }
    pub fn lib_ref(&self, ids: &Ids, me: usize, r: &Ref) -> LibRef {
        match r {
            Ref::Inline(t) => LibRef::Inline(t.to_ty(&|r| self.inline_ref(ids, me, r))),
            Ref::Named(l, t) if *l == me => LibRef::Named(semid(ids.types[*l][*t])),
            Ref::Named(l, t) => LibRef::Extern(self.ext(ids, *l, *t)),
        }
    }
    pub fn inline_ref(&self, ids: &Ids, me: usize, r: &Ref) -> InlineRef {
        match r {
            Ref::Inline(t) => InlineRef::Inline(t.to_ty(&|r| self.inline_ref1(ids, me, r))),
            Ref::Named(l, t) if *l == me => InlineRef::Named(semid(ids.types[*l][*t])),
            Ref::Named(l, t) => InlineRef::Extern(self.ext(ids, *l, *t)),
        }
    }
    pub fn inline_ref1(&self, ids: &Ids, me: usize, r: &Ref) -> InlineRef1 {
        match r {
            Ref::Inline(t) => InlineRef1::Inline(t.to_ty(&|r| self.inline_ref2(ids, me, r))),
            Ref::Named(l, t) if *l == me => InlineRef1::Named(semid(ids.types[*l][*t])),
            Ref::Named(l, t) => InlineRef1::Extern(self.ext(ids, *l, *t)),
        }
    }
    pub fn inline_ref2(&self, ids: &Ids, me: usize, r: &Ref) -> InlineRef2 {
        match r {
            Ref::Inline(_) => panic!("model: inline nesting is too deep"),
            Ref::Named(l, t) if *l == me => InlineRef2::Named(semid(ids.types[*l][*t])),
            Ref::Named(l, t) => InlineRef2::Extern(self.ext(ids, *l, *t)),
        }
    }
    pub fn dependency(&self, ids: &Ids, l: usize) -> Dependency { Dependency::with(libid(ids.libs[l]), liname(&self.libs[l].name)) }
    pub fn extern_types(&self, ids: &Ids, l: usize) -> ExternTypes {
        let mut m: BTreeMap<LibName, BTreeMap<SemId, TypeName>> = BTreeMap::new();
        for (el, et) in self.externs(l) {
            m.entry(liname(&self.libs[el].name)).or_default().insert(semid(ids.types[el][et]), tyname(&self.libs[el].types[et].0));
        }
        Confined::try_from(m.into_iter().map(|(k, v)| (k, Confined::try_from(v).unwrap())).collect::<BTreeMap<_, _>>()).unwrap()
    }
    pub fn type_lib(&self, ids: &Ids, l: usize) -> TypeLib {
        TypeLib {
            name: liname(&self.libs[l].name),
            dependencies: Confined::try_from(self.deps(l).into_iter().map(|d| self.dependency(ids, d)).collect::<BTreeSet<_>>()).unwrap(),
            extern_types: self.extern_types(ids, l),
            types: Confined::try_from(
                self.libs[l].types.iter().map(|(n, t)| (tyname(n), t.to_ty(&|r| self.lib_ref(ids, l, r)))).collect::<BTreeMap<_, _>>(),
            )
            .unwrap(),
        }
    }

    // -------------------------------------------------------- binary forms

    fn enc_head(&self, ids: &Ids, l: usize, skip: Option<usize>, w: &mut W) {
        w.name(&self.libs[l].name);
        let mut deps: Vec<(Id, &str)> = self.deps(l).into_iter().filter(|d| Some(*d) != skip).map(|d| (ids.libs[d], self.libs[d].name.as_str())).collect();
        deps.sort();
        w.u8(deps.len() as u8);
        for (i, n) in deps {
            w.raw(&i);
            w.name(n);
        }
        let mut m: BTreeMap<&str, BTreeMap<Id, &str>> = BTreeMap::new();
        for (el, et) in self.externs(l) {
            m.entry(&self.libs[el].name).or_default().insert(ids.types[el][et], &self.libs[el].types[et].0);
        }
        w.u8(m.len() as u8);
        for (n, ts) in m {
            w.name(n);
            w.u16(ts.len() as u16);
            for (id, tn) in ts {
                w.raw(&id);
                w.name(tn);
            }
        }
    }
    fn sorted_types(&self, l: usize) -> Vec<(&str, &MTy)> {
        let mut t: Vec<(&str, &MTy)> = self.libs[l].types.iter().map(|(n, t)| (n.as_str(), t)).collect();
        t.sort();
        t
    }
    pub fn enc_type_lib(&self, ids: &Ids, l: usize) -> Vec<u8> {
        fn r(world: &World, ids: &Ids, me: usize, depth: usize, x: &Ref, w: &mut W) {
            let base = if depth == 3 { 0 } else { 1 };
            match x {
                Ref::Inline(t) => {
                    w.u8(0);
                    t.encode(w, &|y, w| r(world, ids, me, depth + 1, y, w));
                }
                Ref::Named(l, t) if *l == me => {
                    w.u8(base);
                    w.raw(&ids.types[*l][*t]);
                }
                Ref::Named(l, t) => {
                    w.u8(base + 1);
                    w.raw(&ids.libs[*l]);
                    w.raw(&ids.types[*l][*t]);
                }
            }
        }
        let mut w = W::default();
        self.enc_head(ids, l, None, &mut w);
        let t = self.sorted_types(l);
        w.u16(t.len() as u16);
        for (n, t) in t {
            w.name(n);
            t.encode(&mut w, &|y, w| r(self, ids, l, 0, y, w));
        }
        w.0
    }
    /// A local reference beyond the last type encodes an unknown name; `skip` omits a dependency.
    pub fn enc_symbolic_lib(&self, ids: &Ids, l: usize, skip: Option<usize>) -> Vec<u8> {
        fn r(world: &World, ids: &Ids, me: usize, x: &Ref, w: &mut W) {
            match x {
                Ref::Inline(t) => {
                    w.u8(0);
                    t.encode(w, &|y, w| r(world, ids, me, y, w));
                }
                Ref::Named(l, t) if *l == me => {
                    w.u8(1);
                    match world.libs[*l].types.get(*t) {
                        Some(t) => w.name(&t.0),
                        None => w.name(&format!("ZzUnknown{t}")),
                    }
                }
                Ref::Named(l, t) => {
                    w.u8(2);
                    w.name(&world.libs[*l].name);
                    w.name(&world.libs[*l].types[*t].0);
                    w.raw(&ids.libs[*l]);
                    w.raw(&ids.types[*l][*t]);
                }
            }
        }
        let mut w = W::default();
        self.enc_head(ids, l, skip, &mut w);
        let t = self.sorted_types(l);
        w.u64(t.len() as u64);
        for (n, t) in t {
            w.name(n);
            t.encode(&mut w, &|y, w| r(self, ids, l, y, w));
        }
        w.0
    }

    // -------------------------------------------------------- resolved system

    pub fn resolve<'a>(&'a self, r: &'a Ref) -> &'a MTy {
        match r {
            Ref::Inline(t) => t,
            Ref::Named(l, t) => &self.libs[*l].types[*t].1,
        }
    }
    pub fn ref_id(&self, ids: &Ids, r: &Ref) -> Id {
        match r {
            Ref::Inline(t) => Self::sem_id(&ids.types, None, t),
            Ref::Named(l, t) => ids.types[*l][*t],
        }
    }
    /// All types of the given libraries, inline ones included, keyed by semantic id.
    pub fn system(&self, ids: &Ids, libs: &[usize]) -> BTreeMap<Id, MTy> {
        fn walk(w: &World, ids: &Ids, t: &MTy, out: &mut BTreeMap<Id, MTy>) {
            for r in t.refs() {
                if let Ref::Inline(i) = r {
                    out.insert(w.ref_id(ids, r), (**i).clone());
                    walk(w, ids, i, out);
                }
            }
        }
        let mut out = BTreeMap::new();
        for l in libs {
            for (i, (_, t)) in self.libs[*l].types.iter().enumerate() {
                out.insert(ids.types[*l][i], t.clone());
                walk(self, ids, t, &mut out);
            }
        }
        out
    }
    pub fn sys_ty(&self, ids: &Ids, t: &MTy) -> Ty<SemId> { t.to_ty(&|r| semid(self.ref_id(ids, r))) }
    pub fn enc_system(&self, ids: &Ids, sys: &BTreeMap<Id, MTy>) -> Vec<u8> {
        let mut w = W::default();
        w.u24(sys.len());
        for (id, t) in sys {
            w.raw(id);
            t.encode(&mut w, &|r, w| w.raw(&self.ref_id(ids, r)));
        }
        w.0
    }
    pub fn sys_id(sys: &BTreeMap<Id, MTy>) -> Id {
        let mut w = W::default();
        w.u24(sys.len());
        sys.keys().for_each(|k| w.raw(k));
        tagged(SYS_TAG, &w.0)
    }
    pub fn describe(&self) -> String {
        let mut s = String::new();
        for (l, lib) in self.libs.iter().enumerate() {
            s += &format!("lib {}#{l} {{ ", lib.name);
            for (n, t) in &lib.types {
                s += &format!("{n} = {}; ", show(self, t));
            }
            s += "} ";
        }
        s
    }
}

pub fn show(w: &World, t: &MTy) -> String {
    let r = |r: &Ref| match r {
        Ref::Inline(t) => show(w, t),
        Ref::Named(l, t) => format!("{}.{}", w.libs[*l].name, w.libs[*l].types[*t].0),
    };
    match t {
        MTy::Prim(c) => format!("{:#x}", c),
        MTy::Unicode => "uni".into(),
        MTy::Enum(v) if v.len() > 12 => format!("enum<{} variants>", v.len()),
        MTy::Enum(v) => format!("enum({})", v.iter().map(|x| format!("{}={}", x.0, x.1)).collect::<Vec<_>>().join("|")),
        MTy::Union(v) => format!("union({})", v.iter().map(|x| format!("{}={} {}", x.0, x.1, r(&x.2))).collect::<Vec<_>>().join("|")),
        MTy::Tuple(v) => format!("({},)", v.iter().map(r).collect::<Vec<_>>().join(",")),
        MTy::Struct(v) => format!("{{{}}}", v.iter().map(|x| format!("{}:{}", x.0, r(&x.1))).collect::<Vec<_>>().join(",")),
        MTy::Array(x, n) => format!("[{}^{n}]", r(x)),
        MTy::List(x, a, b) => format!("[{}^{a}..{b}]", r(x)),
        MTy::Set(x, a, b) => format!("{{{}^{a}..{b}}}", r(x)),
        MTy::Map(k, v, a, b) => format!("{{{}->{}^{a}..{b}}}", r(k), r(v)),
    }
}

// ------------------------------------------------------------------ generators

/// What the type generator may produce.
#[derive(Clone, Copy)]
pub struct Gen {
    pub max_fields: usize,
    /// allow now and then composite types of up to 255 members
    pub huge: bool,
    /// inline levels below a named type (the format allows three)
    pub depth: usize,
    pub prims: &'static [u8],
    pub max_libs: usize,
    pub max_types: usize,
    pub long_names: bool,
}

pub const ALL_PRIMS: &[u8] = &[
    0x01, 0x00, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x10, 0x14, 0x20, 0x2f, 0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x50,
    0x60, 0x81, 0x82, 0x83, 0x84, 0x86, 0x88, 0x90, 0xc0, 0xc2, 0xc4, 0xc8, 0xca, 0xd0,
];
pub const LIB_GEN: Gen = Gen { max_fields: 5, huge: true, depth: 3, prims: ALL_PRIMS, max_libs: 4, max_types: 7, long_names: true };

const UP: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ_";
const LO: &[u8] = b"abcdefghijklmnopqrstuvwxyz_";
const AN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";

fn ident(src: &mut Src, first: &[u8], long: bool) -> String {
    if long && src.chance(1, 40) {
        // words which have a meaning of their own in some of the notations
        return if first == UP {
            *src.pick(&["UnicodeChar", "Primitive", "Named", "Embedded", "Extern", "Inline", "U8", "Unit", "Byte", "Ascii", "True", "Null", "None", "Option", "N", "Union", "Set", "REnum", "_"])
        } else {
            *src.pick(&["null", "true", "false", "none", "some", "tag", "yes", "n", "inf", "nan", "e5", "name", "ty", "data", "_0", "_1", "self", "typelib", "import", "use"])
        }
        .to_string();
    }
    let n = match src.weighted(&[20, 10, if long { 1 } else { 0 }]) {
        0 => src.usize(0, 2),
        1 => src.usize(3, 12),
        _ => src.usize(13, 99),
    };
    let mut s = String::new();
    s.push(*src.pick(first) as char);
    for _ in 0..n {
        s.push(*src.pick(AN) as char);
    }
    s
}
pub fn uniq(used: &mut BTreeSet<String>, base: String) -> String {
    let mut n = base;
    let mut k = 0;
    while !used.insert(n.clone()) {
        n.truncate(90);
        n = format!("{n}{k}");
        k += 1;
    }
    n
}
pub fn type_name(src: &mut Src, g: &Gen) -> String { ident(src, UP, g.long_names) }
pub fn field_name(src: &mut Src, g: &Gen) -> String { ident(src, LO, g.long_names) }

fn count(src: &mut Src, g: &Gen) -> usize {
    if g.huge && src.chance(1, 60) {
        *src.pick(&[255usize, 254, 128, 127, 200, 64])
    } else {
        src.usize(1, g.max_fields)
    }
}

fn tags(src: &mut Src, n: usize) -> Vec<u8> {
    if n > 200 || !src.chance(1, 3) {
        let base = if n < 250 && src.chance(1, 6) { src.usize(0, 255 - n) } else { 0 };
        return (base..base + n).map(|x| x as u8).collect();
    }
    let mut s = BTreeSet::new();
    while s.len() < n {
        let mut t = src.byte();
        while !s.insert(t) {
            t = t.wrapping_add(1);
        }
    }
    s.into_iter().collect()
}

pub fn sizing(src: &mut Src) -> (u64, u64) {
    match src.weighted(&[4, 3, 3, 2, 2, 1, 3, 1, 1]) {
        8 => {
            // around the bounds where the length field becomes wider
            let top = *src.pick(&[0xFF, 0xFFFF, 0xFF_FFFF, 0xFFFF_FFFFu64]);
            (src.below(3), top - 1 + src.below(3))
        }
        0 => (0, 0xFF),
        1 => (1, 0xFF),
        2 => (0, 0xFFFF),
        3 => (1, 0xFFFF),
        4 => (0, 0xFFFFFF),
        5 => (0, *src.pick(&[0xFFFF_FFFF, u64::MAX])),
        6 => {
            let a = src.below(6);
            (a, a + src.below(300))
        }
        _ => {
            let a = src.u64();
            let b = src.u64();
            // bounds nothing may satisfy are still a part of the type
            if src.chance(1, 4) {
                (a.max(b), a.min(b))
            } else {
                (a.min(b), a.max(b))
            }
        }
    }
}

/// Generates a reference; `depth` is the number of inline levels still allowed.
fn gen_ref(src: &mut Src, w: &World, depth: usize, g: &Gen) -> Ref {
    let last = w.libs.len() - 1;
    let here = w.libs[last].types.len();
    let ext: usize = w.libs[..last].iter().map(|l| l.types.len()).sum();
    let named = here + ext > 0;
    if depth > 0 && (!named || src.below(5) < 3) {
        return Ref::Inline(Box::new(gen_ty(src, w, depth - 1, g)));
    }
    if here > 0 && (ext == 0 || !src.chance(1, 3)) {
        return Ref::Named(last, src.usize(0, here - 1));
    }
    let l = loop {
        let l = src.usize(0, last - 1);
        if !w.libs[l].types.is_empty() {
            break l;
        }
    };
    Ref::Named(l, src.usize(0, w.libs[l].types.len() - 1))
}

/// A union which resembles an option, but isn't one.
pub fn near_option(src: &mut Src, none: Ref, some: Ref) -> MTy {
    let two = |a: (&str, u8), b: (&str, u8)| MTy::Union(vec![(a.0.into(), a.1, none.clone()), (b.0.into(), b.1, some.clone())]);
    match src.below(9) {
        0 => two(("none", 0), ("some", 2)),
        1 => two(("none", 0), ("some", 255)),
        2 => two(("none", 1), ("some", 2)),
        3 => two(("some", 0), ("none", 1)),
        4 => two(("none_", 0), ("some_", 1)),
        5 => two(("none", 0), ("sum", 1)),
        6 => two(("nil", 0), ("some", 1)),
        7 => MTy::Union(vec![(if src.bool() { "none" } else { "some" }.into(), src.below(2) as u8, some)]),
        _ => MTy::Union(vec![("none".into(), 0, none), ("some".into(), 1, some.clone()), ("more".into(), 2, some)]),
    }
}

/// A type which resembles a restricted string (of characters `a` and then `b`), but isn't one. Some of them are: with
/// `a` or `b` given as the other type.
pub fn near_rstring(src: &mut Src, a: Ref, b: Ref, other: Ref, (min, max): (u64, u64)) -> MTy {
    let inl = |t: MTy| Ref::Inline(Box::new(t));
    let list = |r: &Ref| inl(MTy::List(r.clone(), min, max));
    match src.below(10) {
        0 => MTy::Tuple(vec![a, inl(MTy::Set(b, min, max))]),
        1 => MTy::Tuple(vec![a.clone(), inl(MTy::Map(b, a, min, max))]),
        2 => MTy::Tuple(vec![a, inl(MTy::Array(b, 3))]),
        3 => MTy::Tuple(vec![list(&b), a]),
        4 => MTy::Tuple(vec![a, list(&b), other]),
        5 => MTy::Tuple(vec![other, list(&b)]),
        6 => MTy::Tuple(vec![a, list(&other)]),
        7 => MTy::Tuple(vec![list(&a), list(&b)]),
        8 => MTy::Struct(vec![("a".into(), a), ("b".into(), list(&b))]),
        _ => MTy::Tuple(vec![a, b]),
    }
}

/// Generates a type whose references may go `depth` inline levels down.
pub fn gen_ty(src: &mut Src, w: &World, depth: usize, g: &Gen) -> MTy {
    let named = w.libs.iter().any(|l| !l.types.is_empty());
    let leaf = depth == 0 && !named;
    let k = if leaf { src.weighted(&[8, 1, 3]) } else { src.weighted(&[8, 1, 3, 4, 4, 4, 2, 3, 2, 2]) };
    match k {
        0 => MTy::Prim(*src.pick(g.prims)),
        1 => MTy::Unicode,
        2 => {
            let n = count(src, g);
            let mut used = BTreeSet::new();
            MTy::Enum(
                tags(src, n)
                    .into_iter()
                    .map(|t| {
                        let n = field_name(src, g);
                        (uniq(&mut used, n), t)
                    })
                    .collect(),
            )
        }
        3 => {
            if src.chance(1, 5) {
                let none = if depth > 0 { Ref::Inline(Box::new(MTy::Prim(0))) } else { gen_ref(src, w, 0, g) };
                let some = gen_ref(src, w, depth, g);
                if src.chance(1, 5) {
                    return near_option(src, none, some);
                }
                return MTy::Union(vec![("none".into(), 0, none), ("some".into(), 1, some)]);
            }
            let n = count(src, g);
            let mut used = BTreeSet::new();
            MTy::Union(
                tags(src, n)
                    .into_iter()
                    .map(|t| {
                        let n = field_name(src, g);
                        (uniq(&mut used, n), t, gen_ref(src, w, depth, g))
                    })
                    .collect(),
            )
        }
        4 => {
            let n = count(src, g);
            MTy::Tuple((0..n).map(|_| gen_ref(src, w, depth, g)).collect())
        }
        5 => {
            let n = count(src, g);
            let mut used = BTreeSet::new();
            MTy::Struct(
                (0..n)
                    .map(|_| {
                        let n = field_name(src, g);
                        (uniq(&mut used, n), gen_ref(src, w, depth, g))
                    })
                    .collect(),
            )
        }
        6 => MTy::Array(gen_ref(src, w, depth, g), *src.pick(&[0u16, 1, 2, 4, 20, 32, 33, 255, 256, 65535])),
        7 => {
            let (a, b) = sizing(src);
            MTy::List(gen_ref(src, w, depth, g), a, b)
        }
        8 => {
            let (a, b) = sizing(src);
            MTy::Set(gen_ref(src, w, depth, g), a, b)
        }
        _ => {
            let (a, b) = sizing(src);
            MTy::Map(gen_ref(src, w, depth, g), gen_ref(src, w, depth, g), a, b)
        }
    }
}

/// A library of many types, each built upon the previous one or upon few others, or many libraries
/// with a type or two; with a library which uses all of them.
pub fn gen_crowd(src: &mut Src, g: &Gen) -> World {
    let mut w = World::default();
    let g = Gen { huge: false, max_fields: 2, depth: 0, long_names: false, ..*g };
    let n = *src.pick(&[33usize, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]);
    let inl = |t: MTy| Ref::Inline(Box::new(t));
    let wide = src.below(3) == 0;
    let n = if wide { n.min(255) } else { n };
    let order = src.below(3);
    let chain = src.bool();
    for i in 0..n {
        let k = match order {
            0 => i,
            1 => 999 - i,
            _ => i * 7919 % 1009,
        };
        let l = if wide {
            w.libs.push(MLib { name: format!("Lib{k:04}"), types: vec![] });
            i
        } else {
            if w.libs.is_empty() {
                w.libs.push(MLib { name: "Crowd".into(), types: vec![] });
            }
            0
        };
        let prev = match (i, wide) {
            (0, _) => inl(MTy::Prim(1)),
            (_, true) => Ref::Named(i - 1, 0),
            _ => Ref::Named(0, i - 1),
        };
        let t = if chain {
            match src.below(8) {
                0 => MTy::Tuple(vec![prev]),
                1 => MTy::List(prev, 0, 255),
                2 => MTy::Union(vec![("none".into(), 0, inl(MTy::Prim(0))), ("some".into(), 1, prev)]),
                3 => MTy::Array(prev, 1),
                4 => MTy::Tuple(vec![inl(MTy::Prim(1)), prev]),
                5 => MTy::Union(vec![("a".into(), 3, prev)]),
                6 => MTy::Map(inl(MTy::Prim(1)), prev, 0, 255),
                _ => MTy::Struct(vec![("a".into(), prev)]),
            }
        } else if wide {
            MTy::Struct(vec![(format!("f{i}"), inl(MTy::Prim(1)))])
        } else {
            gen_ty(src, &w, 0, &g)
        };
        w.libs[l].types.push((format!("T{k:04}"), t));
    }
    // a library with all of the others among its dependencies
    let all: Vec<Ref> = w.libs.iter().enumerate().flat_map(|(l, lib)| (0..lib.types.len()).map(move |t| Ref::Named(l, t))).collect();
    // the dependencies of a library are counted by a byte
    let mut last = MLib { name: "Last".into(), types: vec![] };
    for (k, part) in all.chunks(255).enumerate() {
        let part = part.to_vec();
        let t = if src.bool() { MTy::Tuple(part) } else { MTy::Union(part.into_iter().enumerate().map(|(i, r)| (format!("v{i}"), i as u8, r)).collect()) };
        last.types.push((format!("All{k}"), t));
    }
    w.libs.push(last);
    w
}

pub fn gen_world(src: &mut Src, g: &Gen) -> World {
    if g.max_types >= 7 && g.max_libs >= 2 && src.below(150) == 0 {
        return gen_crowd(src, g);
    }
    let mut w = World::default();
    let mut names = BTreeSet::new();
    let n = src.usize(1, g.max_libs);
    for _ in 0..n {
        let base = type_name(src, g);
        // a lone underscore is the reserved name of the embedded library
        let base = if base == "_" { "Lib".into() } else { base };
        w.libs.push(MLib { name: uniq(&mut names, base), types: vec![] });
        let mut used = BTreeSet::new();
        for _ in 0..src.usize(1, g.max_types) {
            let n = type_name(src, g);
            let n = uniq(&mut used, n);
            let t = gen_ty(src, &w, g.depth, g);
            let l = w.libs.len() - 1;
            w.libs[l].types.push((n, t));
        }
    }
    unambiguous(w)
}

/// The world, unless two different types of it have one semantic id (the known finding of C01).
pub fn unambiguous(w: World) -> World {
    fn exact(ids: &[Vec<Id>], r: &Ref, o: &mut W) {
        match r {
            Ref::Inline(t) => {
                o.raw(b"(((");
                t.commit(o, &|r, o| exact(ids, r, o));
                o.raw(b")))");
            }
            Ref::Named(l, t) => o.raw(&ids[*l][*t]),
        }
    }
    type Seen = std::collections::HashMap<Vec<u8>, Vec<u8>>;
    fn visit(ids: &[Vec<Id>], name: Option<&str>, t: &MTy, seen: &mut Seen) -> bool {
        let (mut flat, mut full) = (W::default(), W::default());
        if let Some(n) = name {
            flat.name(n);
        }
        t.commit(&mut flat, &|r, o| World::commit_ref(ids, r, o));
        t.commit(&mut full, &|r, o| exact(ids, r, o));
        if seen.entry(flat.0).or_insert_with(|| full.0.clone()) != &full.0 {
            return false;
        }
        t.refs().into_iter().all(|r| match r {
            Ref::Inline(t) => visit(ids, None, t, seen),
            Ref::Named(..) => true,
        })
    }
    let mut seen = Seen::default();
    let mut ids: Vec<Vec<Id>> = vec![];
    for lib in &w.libs {
        ids.push(vec![]);
        for (n, t) in &lib.types {
            if !visit(&ids, Some(n), t, &mut seen) {
                let types = vec![("Unit".into(), MTy::Tuple(vec![Ref::Inline(Box::new(MTy::Prim(1)))]))];
                return World { libs: vec![MLib { name: "A".into(), types }], transitive: false };
            }
            let id = World::sem_id(&ids, Some(n), t);
            ids.last_mut().unwrap().push(id);
        }
    }
    w
}

/// Whether two named types of the world share a semantic id.
pub fn has_shared(ids: &Ids) -> bool {
    let mut s = BTreeSet::new();
    ids.types.iter().flatten().any(|i| !s.insert(*i))
}

//! Transpilation of Rust types: a family of dynamic types which present themselves to the library
//! builder the way types with derived strict encoding do.

use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::io;
use std::rc::Rc;

use strict_encoding::{
    DefineStruct, DefineTuple, DefineUnion, Sizing, StrictDumb, StrictEncode, StrictEnum, StrictProduct, StrictStruct, StrictSum, StrictTuple, StrictType,
    StrictUnion, TypeName, TypedWrite, VariantError, WriteRaw, WriteStruct, WriteTuple, WriteUnion, LIB_EMBEDDED,
};
use strict_types::typelib::{CompileError, LibBuilder, TranspileError};
use strict_types::{Dependency, SemId};

use crate::engine::*;
use crate::model::*;
use crate::util::*;

pub const PROPS: &[&Prop] = &[&C06];

pub static C06: Prop = Prop {
    id: "C06",
    rule: "random families of up to three libraries of Rust-like types (primitives, strings, arrays, collections, options, anonymous tuples, restricted strings, named \
tuples, structures, unions and enumerations of random shape, tags and dumb values), transpiled in a random order with repetitions",
    subs: &[
        Sub { name: "transpile", quick: 60_000, thorough: 1_500_000, run: c06 },
        Sub { name: "dependency", quick: 2_000, thorough: 30_000, run: c06_dependency },
    ],
    known: &[],
    assumptions: &["types present themselves to the library builder by the calls which derived implementations make"],
};

const LIBS: [&str; 4] = [LIB_EMBEDDED, "Alpha", "Beta", "Gamma"];
type Shape = &'static [(u8, &'static str)];
const SHAPES: [Shape; 10] = [
    &[(0, "only")],
    &[(0, "alpha"), (1, "beta")],
    &[(0, "zz"), (1, "yy"), (2, "xx")],
    &[(3, "b"), (1, "c"), (200, "a")],
    &[(255, "first"), (0, "last")],
    &[(0, "none"), (1, "some")],
    &[(1, "none"), (0, "some")],
    &[(0, "none"), (1, "some"), (2, "more")],
    &[(9, "i"), (8, "h"), (7, "g"), (6, "f"), (5, "e"), (4, "d"), (3, "c"), (2, "b"), (1, "a"), (0, "z")],
    &[
        (48, "_0"), (49, "_1"), (50, "_2"), (51, "_3"), (52, "_4"), (53, "_5"), (54, "_6"), (55, "_7"), (56, "_8"), (57, "_9"),
        (97, "a"), (98, "b"), (99, "c"), (100, "d"), (101, "e"), (102, "f"), (65, "aUp"), (66, "bUp"), (67, "cUp"), (68, "dUp"),
    ],
];
const FIELDS: [&[&str]; 6] = [&["single"], &["a", "b"], &["b", "a"], &["zeta", "alpha", "middle"], &["x1", "x2", "x3", "x4"], &["some", "none", "tag", "type", "_"]];

macro_rules! for_shape {
    ($v:expr, $V:ident => $e:expr) => {
        match $v {
            0 => { const $V: usize = 0; $e }
            1 => { const $V: usize = 1; $e }
            2 => { const $V: usize = 2; $e }
            3 => { const $V: usize = 3; $e }
            4 => { const $V: usize = 4; $e }
            5 => { const $V: usize = 5; $e }
            6 => { const $V: usize = 6; $e }
            7 => { const $V: usize = 7; $e }
            8 => { const $V: usize = 8; $e }
            9 => { const $V: usize = 9; $e }
            _ => unreachable!(),
        }
    };
}
macro_rules! for_fields {
    ($v:expr, $V:ident => $e:expr) => {
        match $v {
            0 => { const $V: usize = 0; $e }
            1 => { const $V: usize = 1; $e }
            2 => { const $V: usize = 2; $e }
            3 => { const $V: usize = 3; $e }
            4 => { const $V: usize = 4; $e }
            5 => { const $V: usize = 5; $e }
            _ => unreachable!(),
        }
    };
}

enum Var {
    Unit,
    Tuple(Vec<usize>),
    Struct(Vec<(String, usize)>),
}
enum Kind {
    Prim(u8),
    Text(u64, u64),
    Array(usize, u16),
    List(usize, u64, u64),
    Set(usize, u64, u64),
    Map(usize, usize, u64, u64),
    RString(usize, usize, u64, u64),
    Tuple(Vec<usize>),
    /// shape of field names
    Struct(usize, Vec<usize>),
    /// shape, index of the dumb variant
    Enum(usize, usize),
    Union(usize, Vec<Var>, usize),
}
struct Node {
    /// index in LIBS
    lib: usize,
    name: Option<String>,
    kind: Kind,
}
thread_local! {
    static NODES: RefCell<Rc<Vec<Node>>> = Default::default();
    /// the node a type-level question is about
    static CUR: Cell<usize> = const { Cell::new(0) };
}
fn nodes() -> Rc<Vec<Node>> { NODES.with(|x| x.borrow().clone()) }
fn cur() -> usize { CUR.with(|x| x.get()) }
fn set_cur(i: usize) { CUR.with(|x| x.set(i)) }

fn cur_name() -> Option<TypeName> { nodes()[cur()].name.as_deref().map(tyname) }

/// A value of the type of a node, in the library number L.
#[derive(Clone)]
struct D<const L: usize>(usize);
/// What such a value passes to the writer.
#[derive(Clone)]
struct Tup<const L: usize, const N: u8>;
#[derive(Clone)]
struct Rec<const L: usize, const V: usize>;
#[derive(Clone)]
struct Uni<const L: usize, const V: usize>(usize);
#[derive(Copy, Clone)]
struct Enu<const L: usize, const V: usize>(u8);

impl<const L: usize> StrictType for D<L> {
    const STRICT_LIB_NAME: &'static str = LIBS[L];
    fn strict_name() -> Option<TypeName> { cur_name() }
}
impl<const L: usize> StrictDumb for D<L> {
    fn strict_dumb() -> Self { D(cur()) }
}
impl<const L: usize, const N: u8> StrictType for Tup<L, N> {
    const STRICT_LIB_NAME: &'static str = LIBS[L];
    fn strict_name() -> Option<TypeName> { cur_name() }
}
impl<const L: usize, const N: u8> StrictDumb for Tup<L, N> {
    fn strict_dumb() -> Self { Tup }
}
impl<const L: usize, const N: u8> StrictProduct for Tup<L, N> {}
impl<const L: usize, const N: u8> StrictTuple for Tup<L, N> {
    const FIELD_COUNT: u8 = N;
}
impl<const L: usize, const V: usize> StrictType for Rec<L, V> {
    const STRICT_LIB_NAME: &'static str = LIBS[L];
    fn strict_name() -> Option<TypeName> { cur_name() }
}
impl<const L: usize, const V: usize> StrictDumb for Rec<L, V> {
    fn strict_dumb() -> Self { Rec }
}
impl<const L: usize, const V: usize> StrictProduct for Rec<L, V> {}
impl<const L: usize, const V: usize> StrictStruct for Rec<L, V> {
    const ALL_FIELDS: &'static [&'static str] = FIELDS[V];
}
impl<const L: usize, const V: usize> StrictType for Uni<L, V> {
    const STRICT_LIB_NAME: &'static str = LIBS[L];
    fn strict_name() -> Option<TypeName> { cur_name() }
}
impl<const L: usize, const V: usize> StrictDumb for Uni<L, V> {
    fn strict_dumb() -> Self { Uni(0) }
}
impl<const L: usize, const V: usize> StrictSum for Uni<L, V> {
    const ALL_VARIANTS: &'static [(u8, &'static str)] = SHAPES[V];
    fn variant_name(&self) -> &'static str { SHAPES[V][self.0].1 }
}
impl<const L: usize, const V: usize> StrictUnion for Uni<L, V> {}
impl<const L: usize, const V: usize> StrictType for Enu<L, V> {
    const STRICT_LIB_NAME: &'static str = LIBS[L];
    fn strict_name() -> Option<TypeName> { cur_name() }
}
impl<const L: usize, const V: usize> StrictSum for Enu<L, V> {
    const ALL_VARIANTS: &'static [(u8, &'static str)] = SHAPES[V];
    fn variant_name(&self) -> &'static str { SHAPES[V].iter().find(|x| x.0 == self.0).unwrap().1 }
}
impl<const L: usize, const V: usize> TryFrom<u8> for Enu<L, V> {
    type Error = VariantError<u8>;
    fn try_from(x: u8) -> Result<Self, Self::Error> {
        if SHAPES[V].iter().any(|y| y.0 == x) { Ok(Enu(x)) } else { Err(VariantError::with::<Self>(x)) }
    }
}
impl<const L: usize, const V: usize> From<Enu<L, V>> for u8 {
    fn from(x: Enu<L, V>) -> u8 { x.0 }
}
impl<const L: usize, const V: usize> StrictEnum for Enu<L, V> {}

/// Evaluates an expression with the static type of a node.
macro_rules! with {
    ($i:expr, $T:ident, $c:ident => $e:expr) => {{
        let i: usize = $i;
        let lib = nodes()[i].lib;
        set_cur(i);
        match lib {
            0 => { type $T = D<0>; let $c = D::<0>(i); let _ = &$c; $e }
            1 => { type $T = D<1>; let $c = D::<1>(i); let _ = &$c; $e }
            2 => { type $T = D<2>; let $c = D::<2>(i); let _ = &$c; $e }
            _ => { type $T = D<3>; let $c = D::<3>(i); let _ = &$c; $e }
        }
    }};
}

fn vn(s: &str) -> strict_encoding::VariantName { strict_encoding::VariantName::try_from(s.to_string()).unwrap() }

impl<const L: usize> D<L> {
    fn items<W: TypedWrite>(mut w: W, of: &[usize], n: u64) -> io::Result<W> {
        for _ in 0..n.min(2) {
            for i in of {
                w = with!(*i, T, c => { let _: Option<T> = None; c.strict_encode(w)? });
            }
        }
        Ok(w)
    }
    fn tuple<const N: u8, W: TypedWrite>(&self, w: W, f: &[usize]) -> io::Result<W> {
        w.write_tuple::<Tup<L, N>>(|mut w| {
            for i in f {
                w = with!(*i, T, c => { let _: Option<T> = None; w.write_field(&c)? });
            }
            Ok(w.complete())
        })
    }
    fn record<const V: usize, W: TypedWrite>(&self, w: W, f: &[usize]) -> io::Result<W> {
        w.write_struct::<Rec<L, V>>(|mut w| {
            for (i, n) in f.iter().zip(FIELDS[V]) {
                w = with!(*i, T, c => { let _: Option<T> = None; w.write_field(fieldname(n), &c)? });
            }
            Ok(w.complete())
        })
    }
    fn union<const V: usize, W: TypedWrite>(&self, w: W, vars: &[Var], dumb: usize) -> io::Result<W> {
        w.write_union::<Uni<L, V>>(|mut u| {
            for ((_, name), v) in SHAPES[V].iter().zip(vars) {
                u = match v {
                    Var::Unit => u.define_unit(vn(name)),
                    Var::Tuple(f) => u.define_tuple(vn(name), |mut d| {
                        for i in f {
                            d = with!(*i, T, c => d.define_field::<T>());
                        }
                        DefineTuple::complete(d)
                    }),
                    Var::Struct(f) => u.define_struct(vn(name), |mut d| {
                        for (n, i) in f {
                            d = with!(*i, T, c => d.define_field::<T>(fieldname(n)));
                        }
                        DefineStruct::complete(d)
                    }),
                };
            }
            let u = DefineUnion::complete(u);
            let name = vn(SHAPES[V][dumb].1);
            let u = match &vars[dumb] {
                Var::Unit => u.write_unit(name)?,
                Var::Tuple(f) => u.write_tuple(name, |mut d| {
                    for i in f {
                        d = with!(*i, T, c => { let _: Option<T> = None; d.write_field(&c)? });
                    }
                    Ok(WriteTuple::complete(d))
                })?,
                Var::Struct(f) => u.write_struct(name, |mut d| {
                    for (n, i) in f {
                        d = with!(*i, T, c => { let _: Option<T> = None; d.write_field(fieldname(n), &c)? });
                    }
                    Ok(WriteStruct::complete(d))
                })?,
            };
            Ok(WriteUnion::complete(u))
        })
    }
}
impl<const L: usize> StrictEncode for D<L> {
    fn strict_encode<W: TypedWrite>(&self, mut w: W) -> io::Result<W> {
        let all = nodes();
        set_cur(self.0);
        let w = match &all[self.0].kind {
            Kind::Prim(c) => unsafe {
                w = w.register_primitive(prim(*c));
                w.raw_writer().write_raw::<1024>(vec![0u8; crate::val::byte_size(*c).min(256)])?;
                w
            },
            Kind::Text(a, b) => unsafe { w.register_unicode(Sizing::new(*a, *b)).write_string::<0xFFFF>("text")? },
            Kind::Array(c, n) => {
                w = Self::items(w, &[*c], *n as u64)?;
                with!(*c, T, c => { let _: Option<T> = None; unsafe { w.register_array(&c, *n) } })
            }
            Kind::List(c, a, b) => {
                w = Self::items(w, &[*c], *a)?;
                with!(*c, T, c => { let _: Option<T> = None; unsafe { w.register_list(&c, Sizing::new(*a, *b)) } })
            }
            Kind::Set(c, a, b) => {
                w = Self::items(w, &[*c], *a)?;
                with!(*c, T, c => { let _: Option<T> = None; unsafe { w.register_set(&c, Sizing::new(*a, *b)) } })
            }
            Kind::Map(k, v, a, b) => {
                w = Self::items(w, &[*k, *v], *a)?;
                // the names of both types are not asked for
                let v = Any(*v);
                with!(*k, T, c => { let _: Option<T> = None; unsafe { w.register_map(&c, &v, Sizing::new(*a, *b)) } })
            }
            Kind::RString(c1, c, a, b) => {
                let c = Any(*c);
                with!(*c1, T, c1 => { let _: Option<T> = None; unsafe { w.register_rstring(&c, &c1, Sizing::new(*a, *b)).write_string::<0xFFFF>("text")? } })
            }
            Kind::Tuple(f) => match f.len() {
                1 => self.tuple::<1, W>(w, f)?,
                2 => self.tuple::<2, W>(w, f)?,
                3 => self.tuple::<3, W>(w, f)?,
                _ => self.tuple::<4, W>(w, f)?,
            },
            Kind::Struct(v, f) => for_fields!(*v, V => self.record::<V, W>(w, f)?),
            Kind::Enum(v, d) => for_shape!(*v, V => w.write_enum(Enu::<L, V>(SHAPES[V][*d].0))?),
            Kind::Union(v, vars, d) => for_shape!(*v, V => self.union::<V, W>(w, vars, *d)?),
        };
        set_cur(self.0);
        Ok(w)
    }
}
/// A value of any node, where its type isn't asked for.
struct Any(usize);
impl StrictType for Any {
    const STRICT_LIB_NAME: &'static str = LIB_EMBEDDED;
    fn strict_name() -> Option<TypeName> { None }
}
impl StrictEncode for Any {
    fn strict_encode<W: TypedWrite>(&self, w: W) -> io::Result<W> {
        let x = with!(self.0, T, c => { let _: Option<T> = None; c.strict_encode(w) });
        set_cur(self.0);
        x
    }
}

// ------------------------------------------------------------------ generator

#[derive(Default)]
struct Fam {
    w: World,
    nodes: Vec<Node>,
    /// nodes of named types
    named: Vec<Vec<usize>>,
}
const PRIMS: &[u8] = &[1, 0, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x20, 0x22, 0x26, 0x40, 0x41, 0x42, 0x44, 0x48, 0x50, 0x60, 0x81, 0x82];

impl Fam {
    fn add(&mut self, lib: usize, name: Option<String>, kind: Kind) -> usize {
        self.nodes.push(Node { lib, name, kind });
        self.nodes.len() - 1
    }
    fn named_ref(&self, src: &mut Src) -> Option<(Ref, usize)> {
        let all: Vec<(usize, usize)> = self.named.iter().enumerate().flat_map(|(l, v)| (0..v.len()).map(move |t| (l, t))).collect();
        if all.is_empty() {
            return None;
        }
        // mostly the latest ones
        let k = if src.bool() { all.len() - 1 - src.usize(0, (all.len() - 1).min(2)) } else { src.usize(0, all.len() - 1) };
        let (l, t) = all[k];
        Some((Ref::Named(l, t), self.named[l][t]))
    }
    fn inline(&mut self, t: MTy, kind: Kind) -> (Ref, usize) {
        let n = self.add(0, None, kind);
        (Ref::Inline(Box::new(t)), n)
    }
    fn field(&mut self, src: &mut Src, depth: usize) -> (Ref, usize) {
        if src.below(3) == 0 {
            if let Some(x) = self.named_ref(src) {
                return x;
            }
        }
        if depth <= 1 {
            return self.named_ref(src).filter(|_| depth == 0).unwrap_or_else(|| {
                let c = *src.pick(PRIMS);
                self.inline(MTy::Prim(c), Kind::Prim(c))
            });
        }
        match src.below(9) {
            0 | 1 => {
                let c = *src.pick(PRIMS);
                self.inline(MTy::Prim(c), Kind::Prim(c))
            }
            2 => {
                let (a, b) = sizing(src);
                self.inline(MTy::List(Ref::Inline(Box::new(MTy::Unicode)), a, b), Kind::Text(a, b))
            }
            3 => {
                let (r, n) = self.field(src, depth - 1);
                let len = *src.pick(&[1u16, 4, 20, 32, 33, 0, 65535]);
                self.inline(MTy::Array(r, len), Kind::Array(n, len))
            }
            4 => {
                let (r, n) = self.field(src, depth - 1);
                let (a, b) = sizing(src);
                if src.bool() { self.inline(MTy::List(r, a, b), Kind::List(n, a, b)) } else { self.inline(MTy::Set(r, a, b), Kind::Set(n, a, b)) }
            }
            5 => {
                let (k, kn) = self.field(src, depth - 1);
                let (v, vn) = self.field(src, depth - 1);
                let (a, b) = sizing(src);
                self.inline(MTy::Map(k, v, a, b), Kind::Map(kn, vn, a, b))
            }
            6 => {
                let n = src.usize(2, 3);
                let f: Vec<_> = (0..n).map(|_| self.field(src, depth - 1)).collect();
                let t = MTy::Tuple(f.iter().map(|x| x.0.clone()).collect());
                self.inline(t, Kind::Tuple(f.into_iter().map(|x| x.1).collect()))
            }
            7 => {
                // restricted string over one or two character sets
                let sets: Vec<(usize, usize)> = self
                    .named
                    .iter()
                    .enumerate()
                    .flat_map(|(l, v)| (0..v.len()).map(move |t| (l, t)))
                    .filter(|(l, t)| matches!(self.w.libs[*l].types[*t].1, MTy::Enum(_)))
                    .collect();
                if sets.is_empty() {
                    return self.field(src, depth - 1);
                }
                let (l1, t1) = *src.pick(&sets);
                let (l, t) = *src.pick(&sets);
                let (a, b) = sizing(src);
                let (a, b) = (a.max(1), b.max(1));
                let ty = MTy::Tuple(vec![Ref::Named(l1, t1), Ref::Inline(Box::new(MTy::List(Ref::Named(l, t), a - 1, b - 1)))]);
                let kind = Kind::RString(self.named[l1][t1], self.named[l][t], a, b);
                self.inline(ty, kind)
            }
            _ => {
                let (r, n) = self.field(src, depth.saturating_sub(2));
                let t = MTy::Union(vec![
                    ("none".into(), 0, Ref::Inline(Box::new(MTy::Prim(0)))),
                    ("some".into(), 1, Ref::Inline(Box::new(MTy::Tuple(vec![r])))),
                ]);
                let d = src.usize(0, 1);
                self.inline(t, Kind::Union(5, vec![Var::Unit, Var::Tuple(vec![n])], d))
            }
        }
    }
    fn named(&mut self, src: &mut Src, depth: usize) -> (MTy, Kind) {
        match src.below(5) {
            0 => {
                let v = src.usize(0, SHAPES.len() - 1);
                let d = src.usize(0, SHAPES[v].len() - 1);
                let mut e: Vec<(String, u8)> = SHAPES[v].iter().map(|x| (x.1.to_string(), x.0)).collect();
                e.sort_by_key(|x| x.1);
                (MTy::Enum(e), Kind::Enum(v, d))
            }
            1 => {
                let n = src.usize(1, 4);
                let f: Vec<_> = (0..n).map(|_| self.field(src, depth)).collect();
                (MTy::Tuple(f.iter().map(|x| x.0.clone()).collect()), Kind::Tuple(f.into_iter().map(|x| x.1).collect()))
            }
            2 | 3 => {
                let v = src.usize(0, FIELDS.len() - 1);
                let f: Vec<_> = FIELDS[v].iter().map(|n| (n.to_string(), self.field(src, depth))).collect();
                (MTy::Struct(f.iter().map(|x| (x.0.clone(), x.1 .0.clone())).collect()), Kind::Struct(v, f.into_iter().map(|x| x.1 .1).collect()))
            }
            _ => {
                let v = src.usize(0, 8);
                let mut out = vec![];
                let mut vars = vec![];
                for (tag, name) in SHAPES[v] {
                    let r = match src.below(3) {
                        0 => {
                            vars.push(Var::Unit);
                            MTy::Prim(0)
                        }
                        1 => {
                            let n = src.usize(1, 3);
                            let f: Vec<_> = (0..n).map(|_| self.field(src, depth.saturating_sub(1))).collect();
                            let t = MTy::Tuple(f.iter().map(|x| x.0.clone()).collect());
                            vars.push(Var::Tuple(f.into_iter().map(|x| x.1).collect()));
                            t
                        }
                        _ => {
                            let k = src.usize(0, 3);
                            let f: Vec<_> = FIELDS[k].iter().map(|n| (n.to_string(), self.field(src, depth.saturating_sub(1)))).collect();
                            let t = MTy::Struct(f.iter().map(|x| (x.0.clone(), x.1 .0.clone())).collect());
                            vars.push(Var::Struct(f.into_iter().map(|x| (x.0, x.1 .1)).collect()));
                            t
                        }
                    };
                    out.push((name.to_string(), *tag, Ref::Inline(Box::new(r))));
                }
                out.sort_by_key(|x| x.1);
                let d = src.usize(0, vars.len() - 1);
                (MTy::Union(out), Kind::Union(v, vars, d))
            }
        }
    }
    /// Removes types of the last library which are not in the set.
    fn keep(&mut self, set: &HashSet<usize>) {
        let l = self.w.libs.len() - 1;
        let mut map = vec![usize::MAX; self.w.libs[l].types.len()];
        let mut n = 0;
        for (i, m) in map.iter_mut().enumerate() {
            if set.contains(&i) {
                *m = n;
                n += 1;
            }
        }
        fn fix(t: &mut MTy, l: usize, map: &[usize]) {
            for r in t.refs_mut() {
                match r {
                    Ref::Inline(t) => fix(t, l, map),
                    Ref::Named(x, t) if *x == l => *t = map[*t],
                    _ => {}
                }
            }
        }
        let types = std::mem::take(&mut self.w.libs[l].types);
        self.w.libs[l].types = types.into_iter().enumerate().filter(|(i, _)| set.contains(i)).map(|x| x.1).collect();
        self.w.libs[l].types.iter_mut().for_each(|t| fix(&mut t.1, l, &map));
        let named = std::mem::take(&mut self.named[l]);
        self.named[l] = named.into_iter().enumerate().filter(|(i, _)| set.contains(i)).map(|x| x.1).collect();
    }
}
fn height(t: &MTy) -> usize {
    t.refs()
        .into_iter()
        .map(|r| match r {
            Ref::Inline(t) => 1 + height(t),
            Ref::Named(..) => 0,
        })
        .max()
        .unwrap_or(0)
}
fn closure(w: &World, l: usize, roots: &[usize]) -> HashSet<usize> {
    fn walk(t: &MTy, l: usize, out: &mut Vec<usize>) {
        for r in t.refs() {
            match r {
                Ref::Inline(t) => walk(t, l, out),
                Ref::Named(x, t) if *x == l => out.push(*t),
                _ => {}
            }
        }
    }
    let mut out = HashSet::new();
    let mut todo = roots.to_vec();
    while let Some(x) = todo.pop() {
        if out.insert(x) {
            walk(&w.libs[l].types[x].1, l, &mut todo);
        }
    }
    out
}

fn c06(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut f = Fam::default();
    f.w.transitive = true;
    let mut deps: Vec<(Dependency, HashSet<SemId>)> = vec![];
    let libs = src.usize(1, 3);
    // now and then types nest deeper than libraries allow
    let depth = if src.below(12) == 0 { 4 } else { 3 };
    for l in 0..libs {
        f.w.libs.push(MLib { name: LIBS[l + 1].into(), types: vec![] });
        f.named.push(vec![]);
        for k in 0..src.usize(1, 5) {
            let (t, kind) = f.named(src, depth);
            let name = format!("{}{k}", src.pick(&["Zz", "Type", "A", "Mm", "U"]));
            let n = f.add(l + 1, Some(name.clone()), kind);
            f.w.libs[l].types.push((name, t));
            f.named[l].push(n);
        }
        let count = f.named[l].len();
        let mut roots: Vec<usize> = (0..count).filter(|_| src.below(4) > 0).collect();
        if roots.is_empty() {
            roots.push(src.usize(0, count - 1));
        }
        if src.bool() {
            roots.push(*src.pick(&roots));
        }
        src.shuffle(&mut roots);
        let root_nodes: Vec<usize> = roots.iter().map(|r| f.named[l][*r]).collect();
        let set = closure(&f.w, l, &roots);
        f.keep(&set);
        let ids = f.w.ids();
        NODES.with(|x| *x.borrow_mut() = Rc::new(std::mem::take(&mut f.nodes)));
        let build = |deps: &[(Dependency, HashSet<SemId>)], order: &[usize]| -> Result<LibBuilder, String> {
            guarded(|| {
                let mut b = LibBuilder::with(liname(LIBS[l + 1]), deps.iter().cloned());
                for n in order {
                    b = with!(*n, T, c => b.transpile::<T>());
                }
                b
            })
        };
        let res = c06_lib(src, ctx, &f, l, &ids, &deps, &root_nodes, &build);
        NODES.with(|x| {
            let all = std::mem::take(&mut *x.borrow_mut());
            f.nodes = Rc::try_unwrap(all).ok().expect("nodes are in use");
        });
        if !res? {
            return Ok(());
        }
        let types: HashSet<SemId> = ids.types[l].iter().map(|x| semid(*x)).collect();
        deps.push((f.w.dependency(&ids, l), types));
    }
    Ok(())
}

type Build<'a> = &'a dyn Fn(&[(Dependency, HashSet<SemId>)], &[usize]) -> Result<LibBuilder, String>;
#[allow(clippy::too_many_arguments)]
fn c06_lib(
    src: &mut Src, ctx: &mut Ctx, f: &Fam, l: usize, ids: &Ids, deps: &[(Dependency, HashSet<SemId>)], order: &[usize], build: Build,
) -> Result<bool, Fail> {
    let w = &f.w;
    let b = match build(deps, order) {
        Ok(b) => b,
        Err(p) => fail!("types can't be transpiled: {p}; {}", w.describe()),
    };
    ctx.nontrivial |= w.libs[l].types.len() > 1;
    let ext = w.externs(l);
    ctx.class_if("uses other libraries", !ext.is_empty());
    let sym = match guarded(|| b.compile_symbols()) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => fail!("symbolic library isn't built: {e}; {}", w.describe()),
        Err(p) => fail!("symbolic library isn't built: {p}; {}", w.describe()),
    };
    ctx.sample(|| w.describe());
    let got = ser(&sym);
    let want = w.enc_symbolic_lib(ids, l, None);
    ensure!(got == want, "symbolic library {} differs from the types transpiled:\n{sym:?}\n{}", LIBS[l + 1], w.describe());
    let deep: Vec<&str> = w.libs[l].types.iter().filter(|x| height(&x.1) > 3).map(|x| x.0.as_str()).collect();
    let lib = match guarded(|| sym.compile()) {
        Ok(Ok(x)) => x,
        Ok(Err(CompileError::NestedInline(name, ..))) if deep.contains(&name.as_str()) => {
            ctx.class("too deep");
            return Ok(false);
        }
        Ok(Err(e)) => fail!("library isn't compiled: {e}; {}", w.describe()),
        Err(p) => fail!("library isn't compiled: {p}; {}", w.describe()),
    };
    ensure!(deep.is_empty(), "library with too deep types {deep:?} is compiled; {}", w.describe());
    ensure!(ser(&lib) == w.enc_type_lib(ids, l), "compiled library {} differs from the types transpiled:\n{lib}\n{}", LIBS[l + 1], w.describe());
    ensure!(lib.id() == libid(ids.libs[l]), "id of library {} isn't the commitment to its types and dependencies; {}", LIBS[l + 1], w.describe());
    ensure!(lib.to_dependency().id == libid(ids.libs[l]), "dependency has another id than the library");
    let (d, t) = lib.to_dependency_types();
    ensure!(d.id == libid(ids.libs[l]) && d.name.as_str() == LIBS[l + 1], "dependency isn't that of the library");
    ensure!(t == ids.types[l].iter().map(|x| semid(*x)).collect(), "dependency lists other types than the library has");

    // dependencies which do not provide what is used
    if let Some((el, et)) = (!ext.is_empty()).then(|| *ext.iter().nth(src.usize(0, ext.len() - 1)).unwrap()) {
        let mut less = deps.to_vec();
        let id = semid(ids.types[el][et]);
        if ids.types[el].iter().filter(|x| semid(**x) == id).count() == 1 {
            less[el].1.remove(&id);
            match build(&less, order).map(|b| guarded(|| b.compile_symbols())) {
                Ok(Ok(Err(TranspileError::DependencyMissesType(n, i, t)))) => {
                    ensure!(n.as_str() == LIBS[el + 1] && i == id && t.as_str() == w.libs[el].types[et].0, "missing type is reported as {n}.{t} {i}; {}", w.describe())
                }
                Ok(Ok(Ok(_))) => fail!("library is built with a dependency missing the type {}; {}", w.libs[el].types[et].0, w.describe()),
                Ok(Ok(Err(e))) => fail!("missing type is reported as `{e}`; {}", w.describe()),
                Ok(Err(p)) | Err(p) => fail!("missing type isn't reported: {p}; {}", w.describe()),
            }
        }
        let mut less = deps.to_vec();
        less.remove(el);
        match build(&less, order).map(|b| guarded(|| b.compile_symbols())) {
            Ok(Ok(Err(TranspileError::UnknownLib(n)))) => {
                ensure!(n.as_str() == LIBS[el + 1], "missing library {} is reported as {n}; {}", LIBS[el + 1], w.describe())
            }
            Ok(Ok(Ok(_))) => fail!("library is built without a dependency it uses; {}", w.describe()),
            Ok(Ok(Err(e))) => fail!("missing library is reported as `{e}`; {}", w.describe()),
            Ok(Err(p)) => fail!("missing library isn't reported: {p}; {}", w.describe()),
            // transpiling has no other way to tell than a panic
            Err(_) => {}
        }
    }
    Ok(true)
}

/// What a library tells to the builders of libraries which use it.
fn c06_dependency(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = if src.below(8) == 0 { gen_crowd(src, &LIB_GEN) } else { gen_world(src, &LIB_GEN) };
    let ids = w.ids();
    let l = w.any_lib(src);
    let lib = w.type_lib(&ids, l);
    ctx.nontrivial = lib.types.len() > 2;
    ctx.class_if("over 30 types", lib.types.len() > 30);
    ctx.sample(|| format!("{} with {} types", w.libs[l].name, lib.types.len()));
    ctx.fingerprint(&ids.libs[l]);
    let (d, t) = lib.to_dependency_types();
    let want = w.dependency(&ids, l);
    ensure!(d.id == want.id && d.name == want.name, "dependency {d} isn't that of the library {want}");
    ensure!(t == ids.types[l].iter().map(|x| semid(*x)).collect(), "dependency lists {} types of the library with {}", t.len(), lib.types.len());
    Ok(())
}

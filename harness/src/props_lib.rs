//! Properties of types, libraries and their identities.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use amplify::confinement::Confined;
use amplify::ByteArray;
use armor::AsciiArmor;
use baid64::DisplayBaid64;
use strict_types::ast::{ItemCase, Path, Step, UnnamedFields};
use strict_types::typelib::{InlineRef, InlineRef1, InlineRef2};
use strict_types::{
    Cls, CompileError, Dependency, LibRef, SemId, StlFormat, SymbolRef, SymbolicLib, SymbolicSys, SystemBuilder, TranspileRef, Ty, TypeLib, TypeLibId,
    TypeRef, TypeSysId, TypeSystem, Urn,
};

use crate::engine::*;
use crate::model::*;
use crate::util::*;

pub const PROPS: &[&Prop] = &[&C01, &C02, &C03, &C04, &C05, &C07, &C08, &C09, &C10, &C11, &C12, &C13];

pub const WORLD_RULE: &str = "random worlds of 1-4 libraries with 1-7 types each (all type classes, all primitive codes, composite types of up to 255 \
     members, up to three inline levels, references to local and foreign named types, custom tags and bounds, names up to 100 characters)";

// ------------------------------------------------------------------ shared helpers

/// Converts a model reference into a transpiled reference.
pub fn transpile_ref(w: &World, ids: &Ids, me: usize, r: &Ref) -> TranspileRef {
    match r {
        Ref::Inline(t) => TranspileRef::Embedded(Box::new(t.to_ty(&|r| transpile_ref(w, ids, me, r)))),
        Ref::Named(l, t) if *l == me => TranspileRef::Named(tyname(&w.libs[*l].types[*t].0)),
        Ref::Named(l, t) => TranspileRef::Extern(SymbolRef::with(
            liname(&w.libs[*l].name),
            tyname(&w.libs[*l].types[*t].0),
            libid(ids.libs[*l]),
            semid(ids.types[*l][*t]),
        )),
    }
}

pub fn symbolic(w: &World, ids: &Ids, l: usize) -> Result<SymbolicLib, Fail> {
    let b = w.enc_symbolic_lib(ids, l, None);
    match de::<SymbolicLib>(&b) {
        Ok((s, n)) if n == b.len() => Ok(s),
        Ok((_, n)) => fail!("symbolic library decoding consumed {n} of {} bytes", b.len()),
        Err(e) => fail!("valid binary symbolic library rejected: {e}"),
    }
}

fn walk_types<'a>(t: &'a MTy, f: &mut dyn FnMut(&'a MTy)) {
    f(t);
    for r in t.refs() {
        if let Ref::Inline(i) = r {
            walk_types(i, f)
        }
    }
}

pub fn note_world(ctx: &mut Ctx, w: &World) {
    ctx.class_if("over 30 types", w.libs.iter().map(|l| l.types.len()).sum::<usize>() > 30);
    ctx.class_if("over 30 libraries", w.libs.len() > 30);
    let mut members = 0;
    let mut inline = 0;
    for (_, t) in w.libs.iter().flat_map(|l| &l.types) {
        walk_types(t, &mut |t| {
            let n = match t {
                MTy::Enum(v) => v.len(),
                t => t.refs().len(),
            };
            members = members.max(n);
            inline += 1;
        });
    }
    ctx.class_if("has 255-member type", members == 255);
    ctx.class_if("has 128+ member type", members >= 128);
    ctx.class_if("multi-library", w.libs.len() > 1);
    ctx.class_if("cross-library refs", (0..w.libs.len()).any(|l| !w.deps(l).is_empty()));
    ctx.class_if("inline types", inline > w.libs.iter().map(|l| l.types.len()).sum::<usize>());
    ctx.nontrivial = inline > 2;
    let d = w.describe();
    ctx.fingerprint(d.as_bytes());
    ctx.sample(|| d);
}

pub fn world(src: &mut Src, ctx: &mut Ctx) -> (World, Ids) {
    let w = gen_world(src, &LIB_GEN);
    let ids = w.ids();
    note_world(ctx, &w);
    (w, ids)
}

/// One structural edit somewhere in the type; returns a description.
fn mutate(src: &mut Src, t: &mut MTy) -> &'static str {
    // maybe descend into an inline member
    let mut inl: Vec<&mut Box<MTy>> = t
        .refs_mut()
        .into_iter()
        .filter_map(|r| match r {
            Ref::Inline(i) => Some(i),
            _ => None,
        })
        .collect();
    if !inl.is_empty() && src.below(2) == 0 {
        let i = src.usize(0, inl.len() - 1);
        return mutate(src, inl[i]);
    }
    let flip = |s: &mut String, src: &mut Src| {
        let i = src.usize(0, s.len() - 1);
        let mut b = s.clone().into_bytes();
        b[i] = if b[i] == b'q' { b'z' } else { b'q' };
        *s = String::from_utf8(b).unwrap();
    };
    match t {
        MTy::Prim(c) => {
            *c = if *c == 0x20 { 0x1f } else { 0x20 };
            "primitive code"
        }
        MTy::Unicode => {
            *t = MTy::Prim(1);
            "class"
        }
        MTy::Enum(v) => {
            let i = src.usize(0, v.len() - 1);
            match src.below(3) {
                0 => {
                    flip(&mut v[i].0, src);
                    "variant name"
                }
                1 if v.len() < 255 => {
                    let used: BTreeSet<u8> = v.iter().map(|x| x.1).collect();
                    v[i].1 = (0..=255).find(|t| !used.contains(t)).unwrap();
                    v.sort_by_key(|x| x.1);
                    "variant tag"
                }
                _ if v.len() > 1 => {
                    v.remove(i);
                    "variant removed"
                }
                _ => {
                    flip(&mut v[i].0, src);
                    "variant name"
                }
            }
        }
        MTy::Union(v) => {
            let i = src.usize(0, v.len() - 1);
            match src.below(4) {
                0 => {
                    flip(&mut v[i].0, src);
                    "variant name"
                }
                1 if v.len() < 255 => {
                    let used: BTreeSet<u8> = v.iter().map(|x| x.1).collect();
                    v[i].1 = (0..=255).find(|t| !used.contains(t)).unwrap();
                    v.sort_by_key(|x| x.1);
                    "variant tag"
                }
                2 if v.len() > 1 => {
                    v.remove(i);
                    "variant removed"
                }
                _ if v.len() > 1 => {
                    let j = (i + 1) % v.len();
                    let r = v[i].2.clone();
                    v[i].2 = std::mem::replace(&mut v[j].2, r);
                    "variant types swapped"
                }
                _ => {
                    flip(&mut v[i].0, src);
                    "variant name"
                }
            }
        }
        MTy::Struct(v) => {
            let i = src.usize(0, v.len() - 1);
            match src.below(4) {
                0 => {
                    flip(&mut v[i].0, src);
                    "field name"
                }
                1 if v.len() > 1 => {
                    v.remove(i);
                    "field removed"
                }
                2 if v.len() > 1 => {
                    let j = (i + 1) % v.len();
                    v.swap(i, j);
                    "fields reordered"
                }
                3 => {
                    let c: Vec<Ref> = v.drain(..).map(|x| x.1).collect();
                    *t = MTy::Tuple(c);
                    "struct to tuple"
                }
                _ => {
                    flip(&mut v[i].0, src);
                    "field name"
                }
            }
        }
        MTy::Tuple(v) => {
            let i = src.usize(0, v.len() - 1);
            match src.below(2) {
                0 if v.len() > 1 => {
                    let j = (i + 1) % v.len();
                    v.swap(i, j);
                    "elements reordered"
                }
                _ if v.len() < 255 => {
                    let r = v[i].clone();
                    v.push(r);
                    "element added"
                }
                _ => {
                    v.remove(i);
                    "element removed"
                }
            }
        }
        MTy::Array(r, n) => match src.below(2) {
            0 => {
                *n ^= 1 << src.below(16);
                "array length"
            }
            _ => {
                let r = r.clone();
                *t = MTy::List(r, 0, 255);
                "array to list"
            }
        },
        MTy::List(r, a, b) => match src.below(3) {
            0 => {
                *a ^= 1 << src.below(64);
                "lower bound"
            }
            1 => {
                *b ^= 1 << src.below(64);
                "upper bound"
            }
            _ => {
                let (r, a, b) = (r.clone(), *a, *b);
                *t = MTy::Set(r, a, b);
                "list to set"
            }
        },
        MTy::Set(r, a, b) => match src.below(3) {
            0 => {
                *a ^= 1 << src.below(64);
                "lower bound"
            }
            1 => {
                *b ^= 1 << src.below(64);
                "upper bound"
            }
            _ => {
                let (r, a, b) = (r.clone(), *a, *b);
                *t = MTy::List(r, a, b);
                "set to list"
            }
        },
        MTy::Map(k, v, a, b) => match src.below(3) {
            0 => {
                *a ^= 1 << src.below(64);
                "lower bound"
            }
            1 => {
                *b ^= 1 << src.below(64);
                "upper bound"
            }
            _ => {
                std::mem::swap(k, v);
                "key and value swapped"
            }
        },
    }
}

/// Applies one edit to a random type of the world. Returns the place and whether it is real.
fn mutate_world(src: &mut Src, w: &mut World) -> Option<(usize, usize, &'static str)> {
    let l = w.any_lib(src);
    let t = src.usize(0, w.libs[l].types.len() - 1);
    if src.below(5) == 0 {
        // rename the type
        let old = w.libs[l].types[t].0.clone();
        let new = if old.len() < 100 { format!("{old}x") } else { old[..99].to_string() };
        if w.libs[l].types.iter().any(|x| x.0 == new) {
            return None;
        }
        w.libs[l].types[t].0 = new;
        return Some((l, t, "type name"));
    }
    let before = w.libs[l].types[t].1.clone();
    let mut after = before.clone();
    let what = mutate(src, &mut after);
    if after == before {
        return None;
    }
    // a name edit may have produced a clash
    let mut ok = true;
    walk_types(&after, &mut |t| {
        let names: Vec<&String> = match t {
            MTy::Enum(v) => v.iter().map(|x| &x.0).collect(),
            MTy::Union(v) => v.iter().map(|x| &x.0).collect(),
            MTy::Struct(v) => v.iter().map(|x| &x.0).collect(),
            _ => vec![],
        };
        let s: BTreeSet<&String> = names.iter().copied().collect();
        ok &= s.len() == names.len();
    });
    if !ok {
        return None;
    }
    w.libs[l].types[t].1 = after;
    Some((l, t, what))
}

/// Types which depend on (l, t), itself included.
fn dependents(w: &World, l: usize, t: usize) -> BTreeSet<(usize, usize)> {
    let mut out = BTreeSet::from([(l, t)]);
    loop {
        let n = out.len();
        for (a, lib) in w.libs.iter().enumerate() {
            for (b, (_, ty)) in lib.types.iter().enumerate() {
                let mut hit = false;
                walk_types(ty, &mut |x| hit |= x.refs().iter().any(|r| matches!(r, Ref::Named(p, q) if out.contains(&(*p, *q)))));
                if hit {
                    out.insert((a, b));
                }
            }
        }
        if out.len() == n {
            return out;
        }
    }
}

// ------------------------------------------------------------------ C01 semantic ids

static C01: Prop = Prop {
    id: "C01",
    rule: "random worlds of libraries; non-trivial: the world has more than two types, inline ones included (reference), or the edit is real (sensitivity)",
    subs: &[
        Sub { name: "reference", quick: 12_000, thorough: 400_000, run: c01_reference },
        Sub { name: "sensitivity", quick: 20_000, thorough: 600_000, run: c01_sensitivity },
    ],
    known: &[("semid-inline-boundary", c01_known)],
    assumptions: &["SHA-256 has no accidental collision among generated inputs"],
};

fn c01_known() -> bool {
    // Tuple((U8, U16), U32) and Tuple((U8, U16, U32)) differ in structure
    let p = |c| Ref::Inline(Box::new(MTy::Prim(c)));
    let a = MTy::Tuple(vec![Ref::Inline(Box::new(MTy::Tuple(vec![p(1), p(2)]))), p(4)]);
    let b = MTy::Tuple(vec![Ref::Inline(Box::new(MTy::Tuple(vec![p(1), p(2), p(4)])))]);
    let w = World { libs: vec![MLib { name: "L".into(), types: vec![("A".into(), a.clone()), ("B".into(), b.clone())] }], transitive: false };
    let ids = w.ids();
    let n = tyname("A");
    let ta: Ty<LibRef> = a.to_ty(&|r| w.lib_ref(&ids, 0, r));
    let tb: Ty<LibRef> = b.to_ty(&|r| w.lib_ref(&ids, 0, r));
    ta != tb && ta.sem_id_named(&n) == tb.sem_id_named(&n)
}

fn c01_reference(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    for l in 0..w.libs.len() {
        for (i, (n, t)) in w.libs[l].types.iter().enumerate() {
            let ty: Ty<LibRef> = t.to_ty(&|r| w.lib_ref(&ids, l, r));
            let want = semid(ids.types[l][i]);
            ensure!(ty.sem_id_named(&tyname(n)) == want, "semantic id of {n} = {} is not the specified one", show(&w, t));
            let unnamed = ty.sem_id_unnamed();
            ensure!(unnamed == semid(World::sem_id(&ids.types, None, t)), "unnamed semantic id of {} is not the specified one", show(&w, t));
            // the resolved representation and clones have the same unnamed identity when they have no inline members
            if t.refs().iter().all(|r| matches!(r, Ref::Named(..))) {
                let st = w.sys_ty(&ids, t);
                ensure!(st.sem_id_unnamed() == unnamed, "resolved form of {} has a different id", show(&w, t));
            }
            // leaf types are identified equally in the symbolic form
            let tt: Ty<TranspileRef> = t.to_ty(&|r| transpile_ref(&w, &ids, l, r));
            let mut local = false;
            walk_types(t, &mut |x| local |= x.refs().iter().any(|r| matches!(r, Ref::Named(p, _) if *p == l)));
            if !local {
                ensure!(tt.sem_id_named(&tyname(n)) == want, "symbolic form of {n} = {} has a different id", show(&w, t));
                ensure!(TranspileRef::Embedded(Box::new(tt)).id() == unnamed, "embedded reference to {} has a different id", show(&w, t));
            }
        }
        let lib = match symbolic(&w, &ids, l)?.compile() {
            Ok(l) => l,
            Err(e) => fail!("well-formed library does not compile: {e}"),
        };
        let (_, set) = lib.to_dependency_types();
        let want: std::collections::HashSet<SemId> = ids.types[l].iter().map(|i| semid(*i)).collect();
        ensure!(set == want, "a compiled library exports other semantic ids than those of its types");
    }
    // the same ids key the resolved type system
    let mut b = SystemBuilder::new();
    for l in 0..w.libs.len() {
        b = match b.import(w.type_lib(&ids, l)) {
            Ok(b) => b,
            Err(e) => fail!("import fails: {e}"),
        };
    }
    let sys = match b.finalize() {
        Ok(s) => s.into_type_system(),
        Err(e) => fail!("finalize fails: {e:?}"),
    };
    let want: BTreeSet<SemId> = w.system(&ids, &(0..w.libs.len()).collect::<Vec<_>>()).keys().map(|i| semid(*i)).collect();
    let got: BTreeSet<SemId> = sys.keys().copied().collect();
    ensure!(got == want, "the type system is keyed by other ids than the semantic ids of its types");
    ensure!(SemId::default() == semid(tagged(TYP_TAG, &[0, 0])) && SemId::unit() == SemId::default(), "unit id");
    Ok(())
}

fn c01_sensitivity(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut w = gen_world(src, &LIB_GEN);
    let n = w.libs.len();
    let before: Vec<TypeLib> = {
        let ids = w.ids();
        (0..n).map(|l| w.type_lib(&ids, l)).collect()
    };
    let old = w.describe();
    let Some((l, t, what)) = mutate_world(src, &mut w) else { return Ok(()) };
    ctx.nontrivial = true;
    ctx.class(what);
    ctx.fingerprint((old.clone() + &w.describe()).as_bytes());
    ctx.sample(|| format!("{what} in {}.{}: {old} => {}", w.libs[l].name, w.libs[l].types[t].0, show(&w, &w.libs[l].types[t].1)));
    let ids = w.ids();
    let after: Vec<TypeLib> = (0..n).map(|l| w.type_lib(&ids, l)).collect();
    let dep = dependents(&w, l, t);
    for a in 0..n {
        for (b, (name, _)) in w.libs[a].types.iter().enumerate() {
            let id2 = after[a].types[&tyname(name)].sem_id_named(&tyname(name));
            if (a, b) == (l, t) && what == "type name" {
                let ids1: Vec<SemId> = before[a].types.iter().map(|(n, t)| t.sem_id_named(n)).collect();
                // the old definition under the old name is gone
                let old_name = before[a].types.keys().find(|n| !after[a].types.contains_key(*n)).unwrap();
                let id1 = before[a].types[old_name].sem_id_named(old_name);
                ensure!(id1 != id2, "renaming a type does not change its id ({ids1:?})");
                continue;
            }
            let id1 = before[a].types[&tyname(name)].sem_id_named(&tyname(name));
            if dep.contains(&(a, b)) {
                ensure!(id1 != id2, "edit `{what}` of {}.{} leaves the id of {}.{name} unchanged", w.libs[l].name, w.libs[l].types[t].0, w.libs[a].name);
            } else {
                ensure!(id1 == id2, "edit `{what}` of {}.{} changes the id of unrelated {}.{name}", w.libs[l].name, w.libs[l].types[t].0, w.libs[a].name);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C02 member enumeration

static C02: Prop = Prop {
    id: "C02",
    rule: "every type of random worlds (inline ones included), with composite types of up to 255 members, in the compiled, symbolic and resolved \
           representations; non-trivial: the world has more than two types",
    subs: &[Sub { name: "members", quick: 12_000, thorough: 500_000, run: c02 }],
    known: &[],
    assumptions: &[],
};

fn cls_of(t: &MTy) -> Cls {
    match t {
        MTy::Prim(_) => Cls::Primitive,
        MTy::Unicode => Cls::Unicode,
        MTy::Enum(_) => Cls::Enum,
        MTy::Union(_) => Cls::Union,
        MTy::Struct(_) => Cls::Struct,
        MTy::Tuple(_) => Cls::Tuple,
        MTy::Array(..) => Cls::Array,
        MTy::List(..) => Cls::List,
        MTy::Set(..) => Cls::Set,
        MTy::Map(..) => Cls::Map,
    }
}

/// What a reference tells about the type it embeds.
fn reference(r: &Ref, ty: &impl TypeRef, ids: bool) -> Res {
    let inner = match r {
        Ref::Inline(t) => Some(&**t),
        Ref::Named(..) => None,
    };
    let byte = matches!(inner, Some(MTy::Prim(0x40 | 0x01)));
    let compound = match inner {
        Some(MTy::Tuple(v)) => v.len() > 1,
        Some(MTy::Struct(v)) => v.len() > 1,
        Some(MTy::Enum(_) | MTy::Union(_)) => true,
        _ => false,
    };
    ensure!(ty.is_byte() == byte, "reference to a byte type: {byte}");
    ensure!(ty.is_unicode_char() == matches!(inner, Some(MTy::Unicode)), "reference to a unicode character");
    ensure!(ids || ty.is_compound() == compound, "reference to a compound type");
    Ok(())
}

fn members<R: TypeRef + PartialEq>(t: &MTy, f: &dyn Fn(&Ref) -> R, probe: &[u8]) -> Res {
    let ty: Ty<R> = t.to_ty(f);
    for r in t.refs() {
        // identifiers know nothing about the structure of their types
        reference(r, &f(r), std::any::type_name::<R>() == std::any::type_name::<SemId>())?;
    }
    let bytes = matches!(t, MTy::Array(Ref::Inline(i), _) if matches!(**i, MTy::Prim(0x40 | 0x01)));
    ensure!(ty.is_byte_array() == bytes, "is_byte_array");
    let want: Vec<(R, Option<ItemCase>)> = match t {
        MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => vec![],
        MTy::Union(v) => v.iter().map(|x| (f(&x.2), None)).collect(),
        MTy::Struct(v) => v.iter().enumerate().map(|(i, x)| (f(&x.1), Some(ItemCase::NamedField(i as u8, fieldname(&x.0))))).collect(),
        MTy::Tuple(v) => v.iter().enumerate().map(|(i, x)| (f(x), Some(ItemCase::UnnamedField(i as u8)))).collect(),
        MTy::Array(x, _) => vec![(f(x), Some(ItemCase::ArrayItem))],
        MTy::List(x, ..) => vec![(f(x), Some(ItemCase::ListItem))],
        MTy::Set(x, ..) => vec![(f(x), Some(ItemCase::SetItem))],
        MTy::Map(k, v, ..) => vec![(f(k), Some(ItemCase::MapKey)), (f(v), Some(ItemCase::MapValue))],
    };
    let n = want.len();
    ensure!(ty.cls() == cls_of(t), "class");
    ensure!(Cls::ALL.iter().filter(|c| **c == ty.cls()).count() == 1, "class {} isn't listed once", ty.cls());
    ensure!(ty.count_type_refs() as usize == n, "count_type_refs is {} for {n} members", ty.count_type_refs());
    let mut it = ty.type_refs();
    let got: Vec<(R, Option<ItemCase>)> = it.by_ref().map(|(r, c)| (r.clone(), c)).collect();
    ensure!(got.len() == n, "enumeration yields {} of {n} members", got.len());
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g.0 == w.0, "member {i} has a wrong type");
        if let MTy::Union(v) = t {
            match &g.1 {
                Some(ItemCase::UnionVariant(_, name)) if name.as_str() == v[i].0 => {}
                c => fail!("member {i} of a union reported as {c:?}, it is variant {}", v[i].0),
            }
        } else {
            ensure!(g.1 == w.1, "member {i} reported as {:?}, expected {:?}", g.1, w.1);
        }
    }
    ensure!(it.next().is_none(), "enumeration continues after its end");
    ensure!(ty.iter().count() == n && (&ty).into_iter().count() == n, "borrowing iterators disagree");
    let owned: Vec<R> = ty.clone().into_iter().collect();
    ensure!(owned.len() == n && owned.iter().zip(&want).all(|(a, b)| *a == b.0), "consuming enumeration differs");
    for p in probe {
        let p = *p;
        ensure!(ty.ty_at(p).cloned() == want.get(p as usize).map(|x| x.0.clone()), "ty_at({p}) is wrong for {n} members");
        let c = ty.case_at(p);
        match want.get(p as usize) {
            None => ensure!(c.is_none(), "case_at({p}) is {c:?} for {n} members"),
            Some(x) => {
                if !matches!(t, MTy::Union(_)) {
                    ensure!(c == x.1, "case_at({p}) is {c:?}, expected {:?}", x.1)
                } else {
                    ensure!(c.is_some(), "case_at({p}) is absent for a union")
                }
            }
        }
    }
    match (&ty, t) {
        (Ty::Union(u), MTy::Union(v)) => {
            for (i, (name, tag, r)) in v.iter().enumerate() {
                let vn = variant(name, *tag).name;
                ensure!(u.ty_by_name(&vn) == Some(&f(r)) && u.ty_by_tag(*tag) == Some(&f(r)), "union lookup of {name}");
                ensure!(u.tag_by_name(&vn) == Some(*tag) && u.name_by_tag(*tag) == Some(&vn), "union tag of {name}");
                ensure!(u.by_tag(*tag).map(|x| (&x.0.name, x.1)) == Some((&vn, &f(r))), "union by_tag of {name}");
                ensure!(u.by_name(&vn).map(|x| (x.0.tag, x.1)) == Some((*tag, &f(r))), "union by_name of {name}");
                ensure!(u.name_by_pos(i as u8) == Some(&vn) && u.ty_by_pos(i as u8) == Some(&f(r)), "union position {i}");
            }
            for p in probe {
                let has = v.iter().find(|x| x.1 == *p);
                ensure!(u.has_tag(*p) == has.is_some() && u.ty_by_tag(*p).is_some() == has.is_some(), "union tag {p}");
            }
            ensure!(u.ty_by_name(&variant("absent_name_", 0).name).is_none(), "absent union variant found");
            let opt = v.len() == 2 && v[0].0 == "none" && v[0].1 == 0 && v[1].0 == "some" && v[1].1 == 1;
            if !opt {
                ensure!(!ty.is_option() && ty.as_some().is_none(), "a union which is not an option reported as such");
            } else if matches!(&v[0].2, Ref::Inline(t) if **t == MTy::Prim(0)) {
                ensure!(ty.is_option() && ty.as_some() == Some(&f(&v[1].2)), "option not recognised");
            }
        }
        (Ty::Enum(e), MTy::Enum(v)) => {
            for (name, tag) in v {
                let vn = variant(name, *tag).name;
                ensure!(e.has_tag(*tag) && e.has_name(&vn) && e.tag_by_name(&vn) == Some(*tag) && e.name_by_tag(*tag) == Some(&vn), "enum {name}");
                ensure!(e.by_tag(*tag).map(|x| &x.name) == Some(&vn) && e.by_name(&vn).map(|x| x.tag) == Some(*tag), "enum by {name}");
            }
            for p in probe {
                ensure!(e.has_tag(*p) == v.iter().any(|x| x.1 == *p), "enum tag {p}");
            }
            let got: Vec<u8> = e.into_iter().map(|v| v.tag).collect();
            ensure!(got == v.iter().map(|x| x.1).collect::<Vec<_>>(), "enum order");
        }
        (Ty::Struct(s), MTy::Struct(v)) => {
            for (i, (name, r)) in v.iter().enumerate() {
                ensure!(s.ty_by_name(&fieldname(name)) == Some(&f(r)) && s.ty_by_pos(i as u8) == Some(&f(r)), "field {name}");
            }
            ensure!(s.ty_by_name(&fieldname("absent_name_")).is_none(), "absent field found");
        }
        (Ty::Tuple(s), MTy::Tuple(v)) => {
            for (i, r) in v.iter().enumerate() {
                ensure!(s.ty_by_pos(i as u8) == Some(&f(r)), "element {i}");
            }
            ensure!(ty.is_newtype() == (v.len() == 1), "is_newtype");
        }
        _ => {}
    }
    ensure!(ty.is_primitive() == matches!(t, MTy::Prim(_) | MTy::Unicode), "is_primitive");
    ensure!(ty.is_collection() == matches!(t, MTy::Array(..) | MTy::List(..) | MTy::Set(..) | MTy::Map(..)), "is_collection");
    Ok(())
}

fn c02(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    let mut probe = vec![0, 1, 2, 3, 127, 128, 253, 254, 255];
    probe.extend(src.bytes(4));
    for l in 0..w.libs.len() {
        for (_, t) in &w.libs[l].types {
            ctx.inner += 1;
            let r = (|| {
                members::<LibRef>(t, &|r| w.lib_ref(&ids, l, r), &probe)?;
                let sym = |r: &Ref| transpile_ref(&w, &ids, l, r);
                members::<TranspileRef>(t, &sym, &probe)?;
                for r in t.refs() {
                    let want = match r {
                        Ref::Inline(t) => Some(t.to_ty(&sym)),
                        _ => None,
                    };
                    ensure!(sym(r).as_ty() == want.as_ref(), "embedded type of a reference");
                    ensure!(Ty::Tuple(UnnamedFields::try_from(vec![sym(r)]).unwrap()).as_wrapped_ty() == want.as_ref(), "wrapped type");
                }
                let ty = t.to_ty(&sym);
                ensure!(matches!(t, MTy::Tuple(v) if v.len() == 1) || ty.as_wrapped_ty().is_none(), "wrapped type of a type which is no wrapper");
                for r in t.refs() {
                    let Ref::Inline(t) = r else { continue };
                    members::<InlineRef>(t, &|r| w.inline_ref(&ids, l, r), &probe)?;
                    for r in t.refs() {
                        let Ref::Inline(t) = r else { continue };
                        members::<InlineRef1>(t, &|r| w.inline_ref1(&ids, l, r), &probe)?;
                        for r in t.refs() {
                            if let Ref::Inline(t) = r {
                                members::<InlineRef2>(t, &|r| w.inline_ref2(&ids, l, r), &probe)?;
                            }
                        }
                    }
                }
                let mut all = vec![];
                walk_types(t, &mut |t| all.push(t));
                for t in all {
                    members::<SemId>(t, &|r| semid(w.ref_id(&ids, r)), &probe)?;
                }
                Ok(())
            })();
            if let Err(Fail { msg }) = r {
                fail!("{msg}; in {}", show(&w, t))
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C03 type paths

static C03: Prop = Prop {
    id: "C03",
    rule: "random embedded types (up to five levels) with random walks through them and corrupted walks; non-trivial: the walk has two or more steps",
    subs: &[Sub { name: "paths", quick: 60_000, thorough: 2_000_000, run: c03 }],
    known: &[],
    assumptions: &[],
};

fn c03(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = Gen { huge: true, ..LIB_GEN };
    let w = World { libs: vec![MLib { name: "L".into(), types: vec![] }], transitive: false };
    let ids = w.ids();
    let mut t = gen_ty(src, &w, 0, &g);
    // wrap it up so that long walks are common
    for _ in 0..src.below(5) {
        let inner = Ref::Inline(Box::new(t));
        let mut host = gen_ty(src, &w, 1, &Gen { huge: true, ..g });
        let mut rs = host.refs_mut();
        if rs.is_empty() {
            host = MTy::List(inner, 0, 10);
        } else {
            let i = src.usize(0, rs.len() - 1);
            *rs[i] = inner;
        }
        t = host;
    }
    let ty: Ty<TranspileRef> = t.to_ty(&|r| transpile_ref(&w, &ids, 0, r));
    let mut cur = &t;
    let mut path = Path::new();
    let mut ok = true;
    let depth = src.below(7);
    for _ in 0..depth {
        let bad = src.chance(1, 12);
        let (step, next): (Step, Option<&Ref>) = if bad {
            let s = match src.below(6) {
                0 => Step::Index,
                1 => Step::List,
                2 => Step::Set,
                3 => Step::MapKey,
                4 => Step::NamedField(fieldname("absent_name_")),
                _ => Step::UnnamedField(src.byte()),
            };
            let n = match (cur, &s) {
                (MTy::Array(r, _), Step::Index) | (MTy::List(r, ..), Step::List) | (MTy::Set(r, ..), Step::Set) | (MTy::Map(r, ..), Step::MapKey) => Some(r),
                (MTy::Struct(v), Step::UnnamedField(i)) => v.get(*i as usize).map(|x| &x.1),
                (MTy::Tuple(v), Step::UnnamedField(i)) => v.get(*i as usize),
                (MTy::Union(v), Step::UnnamedField(i)) => v.iter().find(|x| x.1 == *i).map(|x| &x.2),
                _ => None,
            };
            (s, n)
        } else {
            match cur {
                MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => break,
                MTy::Struct(v) => {
                    let i = src.usize(0, v.len() - 1);
                    let s = if src.bool() { Step::UnnamedField(i as u8) } else { Step::NamedField(fieldname(&v[i].0)) };
                    (s, Some(&v[i].1))
                }
                MTy::Union(v) => {
                    let i = src.usize(0, v.len() - 1);
                    let s = if src.bool() { Step::UnnamedField(v[i].1) } else { Step::Variant(variant(&v[i].0, 0).name) };
                    (s, Some(&v[i].2))
                }
                MTy::Tuple(v) => {
                    let i = src.usize(0, v.len() - 1);
                    (Step::UnnamedField(i as u8), Some(&v[i]))
                }
                MTy::Array(r, _) => (Step::Index, Some(r)),
                MTy::List(r, ..) => (Step::List, Some(r)),
                MTy::Set(r, ..) => (Step::Set, Some(r)),
                MTy::Map(k, v, ..) => {
                    if src.bool() {
                        (Step::MapKey, Some(k))
                    } else {
                        (Step::MapValue, Some(v))
                    }
                }
            }
        };
        path.push(step).unwrap();
        match next {
            Some(Ref::Inline(i)) => cur = i,
            _ => {
                ok = false;
                break;
            }
        }
    }
    ctx.class_if("invalid walk", !ok);
    ctx.class_if("long walk", path.len() >= 3);
    ctx.nontrivial = path.len() >= 2;
    ctx.sample(|| format!("{path} within {}", show(&w, &t)));
    let text: String = path
        .iter()
        .map(|s| match s {
            Step::NamedField(n) => format!(".{n}"),
            Step::UnnamedField(i) => format!(".{i}"),
            Step::Variant(n) => format!(".{n}"),
            Step::Index => "#".into(),
            Step::List => "[]".into(),
            Step::Set => "{}".into(),
            Step::MapKey => "[key]".into(),
            Step::MapValue => "[value]".into(),
        })
        .collect();
    ensure!(path.to_string() == text, "path {text} is displayed as {path}");
    for s in path.iter() {
        ensure!(de::<Step>(&ser(s)).map(|x| x.0).as_ref() == Ok(s), "step {s} of {text} changes through its binary form");
    }
    match ty.at_path(&path) {
        Ok(found) => {
            ensure!(ok, "path {path} does not exist, yet it is resolved");
            let want: Ty<TranspileRef> = cur.to_ty(&|r| transpile_ref(&w, &ids, 0, r));
            ensure!(*found == want, "path {path} resolves to {found}, expected {want}");
        }
        Err(e) => {
            ensure!(!ok, "valid path {path} is not resolved: {e}");
            ensure!(*e.ty == ty, "error reports another type");
            ensure!(e.path == path, "error reports path {}, resolution stops at {path}", e.path);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C04 symbolic <-> compiled

static C04: Prop = Prop {
    id: "C04",
    rule: WORLD_RULE,
    subs: &[Sub { name: "roundtrip", quick: 12_000, thorough: 400_000, run: c04 }],
    known: &[],
    assumptions: &[],
};

fn c04(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    for l in 0..w.libs.len() {
        let lib = w.type_lib(&ids, l);
        let sym = symbolic(&w, &ids, l)?;
        match sym.clone().compile() {
            Ok(c) => ensure!(c == lib, "library compiled from its symbolic form differs from the expected one"),
            Err(e) => fail!("well-formed library does not compile: {e}"),
        }
        let back = match lib.to_symbolic() {
            Ok(s) => s,
            Err(e) => fail!("compiled library has no symbolic form: {e}"),
        };
        ensure!(back == sym, "symbolic form of a compiled library differs:\n{back:?}\n{sym:?}");
        ensure!(sym.name() == &lib.name && sym.dependencies() == &lib.dependencies && sym.extern_types() == &lib.extern_types, "headers differ");
        match back.compile() {
            Ok(c) => {
                ensure!(c == lib && c.id() == lib.id(), "compile(to_symbolic(lib)) differs from lib");
            }
            Err(e) => fail!("restored symbolic library does not compile: {e}"),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C05 compilation is total

static C05: Prop = Prop {
    id: "C05",
    rule: "symbolic libraries, well-formed or with injected defects (unknown local name, reference cycle, too deep inline nesting, missing dependency), \
           delivered through the binary decoder; non-trivial: at least one defect is present or the library has forward references",
    subs: &[Sub { name: "compile", quick: 40_000, thorough: 1_000_000, run: c05 }],
    known: &[],
    assumptions: &["divergence is decided by a deterministic budget of 400 million allocations per case"],
};

fn inline_depth(t: &MTy) -> usize {
    t.refs()
        .into_iter()
        .map(|r| match r {
            Ref::Inline(i) => 1 + inline_depth(i),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

/// Whether embedded members of these classes lead to another embedded member nested too deep.
fn deep_at(t: &MTy, classes: &[&str]) -> bool {
    let cls = |t: &MTy| t.to_ty(&|_| SemId::from_byte_array([0; 32])).cls().to_string();
    let embedded = |t: &MTy| t.refs().into_iter().filter_map(|r| if let Ref::Inline(i) = r { Some((**i).clone()) } else { None }).collect::<Vec<_>>();
    let mut at = vec![t.clone()];
    for c in classes {
        at = at.iter().flat_map(embedded).filter(|i| cls(i) == *c).collect();
    }
    match classes.len() {
        3 => at.iter().any(|t| !embedded(t).is_empty()),
        n => n > 3 && !at.is_empty(),
    }
}

fn c05(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = Gen { huge: false, ..LIB_GEN };
    let mut w = gen_world(src, &g);
    let ids = w.ids();
    let l = w.libs.len() - 1;
    let n = w.libs[l].types.len();
    let mut skip = None;
    let defects = src.weighted(&[2, 4, 1]);
    for _ in 0..defects {
        let t = src.usize(0, n - 1);
        // pick some reference of the type, at any level
        fn some_ref<'a>(src: &mut Src, t: &'a mut MTy) -> Option<&'a mut Ref> {
            let mut rs = t.refs_mut();
            if rs.is_empty() {
                return None;
            }
            let i = src.usize(0, rs.len() - 1);
            let r = rs.swap_remove(i);
            let deeper = matches!(r, Ref::Inline(i) if !i.refs().is_empty());
            if deeper && src.bool() {
                match r {
                    Ref::Inline(i) => some_ref(src, i),
                    _ => unreachable!(),
                }
            } else {
                Some(r)
            }
        }
        match src.below(5) {
            0 => {
                if let Some(r) = some_ref(src, &mut w.libs[l].types[t].1) {
                    *r = Ref::Named(l, n + src.usize(0, 3));
                }
            }
            1 => {
                let to = src.usize(0, n - 1);
                if let Some(r) = some_ref(src, &mut w.libs[l].types[t].1) {
                    *r = Ref::Named(l, to);
                }
            }
            2 => {
                let mut deep = MTy::Prim(1);
                for _ in 0..src.range(2, 8) {
                    let r = Ref::Inline(Box::new(deep));
                    deep = match src.below(4) {
                        0 => MTy::List(r, 0, 255),
                        1 => MTy::Tuple(vec![r]),
                        2 => MTy::Struct(vec![("f".into(), r)]),
                        _ => MTy::Map(Ref::Inline(Box::new(MTy::Prim(1))), r, 0, 255),
                    };
                }
                w.libs[l].types[t].1 = deep;
            }
            3 => {
                // a member which may get nested too deep after other embedded members
                let mut deep = MTy::Prim(1);
                for _ in 0..src.range(2, 6) {
                    let mut f: Vec<Ref> = (0..src.usize(0, 2)).map(|i| Ref::Inline(Box::new(if i == 0 { MTy::Prim(2) } else { MTy::List(Ref::Inline(Box::new(MTy::Prim(1))), 0, 255) }))).collect();
                    f.push(Ref::Inline(Box::new(deep)));
                    deep = match src.below(2) {
                        0 => MTy::Tuple(f),
                        _ => MTy::Struct(f.into_iter().enumerate().map(|(i, r)| (format!("f{i}"), r)).collect()),
                    };
                }
                w.libs[l].types[t].1 = deep;
            }
            _ => {
                let d: Vec<usize> = w.deps(l).into_iter().collect();
                if !d.is_empty() {
                    skip = Some(*src.pick(&d));
                }
            }
        }
    }
    // what is wrong with it, if anything
    let (mut unknown, mut deep) = (false, false);
    let mut edges: Vec<BTreeSet<usize>> = vec![default(); n];
    for (i, (_, t)) in w.libs[l].types.iter().enumerate() {
        deep |= inline_depth(t) > 3;
        walk_types(t, &mut |x| {
            for r in x.refs() {
                if let Ref::Named(p, q) = r {
                    if *p == l && *q >= n {
                        unknown = true;
                    } else if *p == l {
                        edges[i].insert(*q);
                    }
                }
            }
        });
    }
    let mut done: BTreeSet<usize> = default();
    loop {
        let before = done.len();
        for i in 0..n {
            if edges[i].iter().all(|e| done.contains(e)) {
                done.insert(i);
            }
        }
        if done.len() == before {
            break;
        }
    }
    let cyclic = done.len() < n && !unknown;
    let missing = skip.map(|s| w.deps(l).contains(&s)).unwrap_or(false);
    ctx.class_if("unknown name", unknown);
    ctx.class_if("cycle", cyclic);
    ctx.class_if("too deep", deep);
    ctx.class_if("missing dependency", missing);
    ctx.class_if("well-formed", !unknown && !cyclic && !deep && !missing);
    // alphabetical order differs from the dependency order
    let forward = (0..n).any(|i| edges[i].iter().any(|e| *e < n && w.libs[l].types[*e].0 > w.libs[l].types[i].0));
    ctx.class_if("forward references", forward);
    ctx.nontrivial = unknown || cyclic || deep || missing || forward;
    let d: String = w.libs[l].types.iter().map(|(n, t)| format!("{n} = {}; ", show_safe(&w, t))).collect();
    ctx.fingerprint(format!("{d}{skip:?}").as_bytes());
    ctx.sample(|| format!("{d} without dependency {skip:?}"));
    let bytes = w.enc_symbolic_lib(&ids, l, skip);
    let sym = match de::<SymbolicLib>(&bytes) {
        Ok((s, _)) => s,
        Err(e) => fail!("symbolic library does not decode: {e}"),
    };
    let res = sym.compile();
    match (&res, unknown || cyclic || deep || missing) {
        (Ok(lib), false) => {
            // edits may have left forward references; ids are then recomputed in dependency order
            if defects == 0 {
                ensure!(*lib == w.type_lib(&ids, l), "compiled library differs from the expected one");
            }
            let back = match lib.to_symbolic() {
                Ok(s) => s,
                Err(e) => fail!("no symbolic form: {e}"),
            };
            ensure!(ser(&back) == bytes, "compiled library does not reproduce its symbolic source");
        }
        (Err(_), true) => {
            let only = [unknown || cyclic, deep, missing].iter().filter(|x| **x).count() == 1;
            if only {
                let good = match res.as_ref().unwrap_err() {
                    CompileError::UnknownType { .. } => unknown || cyclic,
                    CompileError::NestedInline(top, path, inner) => {
                        let classes: Vec<&str> = path.split('.').chain([inner.as_str()]).collect();
                        let here = w.libs[l].types.iter().any(|(n, t)| n == top.as_str() && deep_at(t, &classes));
                        ensure!(!deep || here, "no too deep definition within {top} at {path}.{inner}");
                        deep
                    }
                    CompileError::UnknownLib(lib) => missing && skip.map(|s| lib.as_str() == w.libs[s].name) == Some(true),
                    _ => false,
                };
                ensure!(good, "misleading compile error: {}", res.unwrap_err());
            }
        }
        (Ok(_), true) => fail!("defective library compiles (unknown {unknown}, cyclic {cyclic}, deep {deep}, missing dependency {missing})"),
        (Err(e), false) => fail!("well-formed library does not compile: {e}"),
    }
    Ok(())
}

fn show_safe(w: &World, t: &MTy) -> String {
    let mut w2 = w.clone();
    for l in &mut w2.libs {
        for i in 0..6 {
            l.types.push((format!("?{i}"), MTy::Prim(0)));
        }
    }
    show(&w2, t)
}

// ------------------------------------------------------------------ C07 library ids

static C07: Prop = Prop {
    id: "C07",
    rule: "random worlds; the library id is recomputed from its definition and compared before and after an edit; non-trivial: a real edit",
    subs: &[
        Sub { name: "libid", quick: 16_000, thorough: 500_000, run: c07 },
        Sub { name: "large", quick: 300, thorough: 10_000, run: c07_large },
    ],
    known: &[],
    assumptions: &["SHA-256 has no accidental collision among generated inputs"],
};

fn c07(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut w, ids) = world(src, ctx);
    ctx.nontrivial = false;
    let n = w.libs.len();
    let before: Vec<TypeLib> = (0..n).map(|l| w.type_lib(&ids, l)).collect();
    for l in 0..n {
        ensure!(before[l].id() == libid(ids.libs[l]), "id of library {} is not the specified one", w.libs[l].name);
        ensure!(before[l].to_dependency().id == libid(ids.libs[l]) && before[l].to_dependency().name == before[l].name, "dependency record");
        // rebuilding the library in any order of types and dependencies gives the same id
        let mut types: Vec<_> = before[l].types.iter().map(|(n, t)| (n.clone(), t.clone())).collect();
        let mut deps: Vec<_> = before[l].dependencies.iter().cloned().collect();
        src.shuffle(&mut types);
        src.shuffle(&mut deps);
        let mut b = TypeLib {
            name: before[l].name.clone(),
            dependencies: Confined::default(),
            extern_types: before[l].extern_types.clone(),
            types: Confined::with_key_value(types[0].0.clone(), types[0].1.clone()),
        };
        for d in deps {
            ensure!(b.import(d).is_ok(), "dependency rejected");
        }
        for (n, t) in types.into_iter().skip(1) {
            ensure!(b.populate(n, t).is_ok(), "type rejected");
        }
        ensure!(b == before[l] && b.id() == before[l].id(), "id depends on the order of construction");
    }
    let Some((l, t, what)) = mutate_world(src, &mut w) else { return Ok(()) };
    ctx.nontrivial = true;
    ctx.class(what);
    let ids2 = w.ids();
    let dep = dependents(&w, l, t);
    for a in 0..n {
        let lib = w.type_lib(&ids2, a);
        // a library changes when one of its types does, or when one of its dependencies does
        let mut touched: BTreeSet<usize> = dep.iter().map(|x| x.0).collect();
        loop {
            let k = touched.len();
            for b in 0..n {
                if w.deps(b).iter().any(|d| touched.contains(d)) {
                    touched.insert(b);
                }
            }
            if touched.len() == k {
                break;
            }
        }
        if touched.contains(&a) {
            ensure!(lib.id() != before[a].id(), "edit `{what}` in {} leaves the id of library {} unchanged", w.libs[l].name, w.libs[a].name);
        } else {
            ensure!(lib.id() == before[a].id(), "edit `{what}` in {} changes the id of unrelated library {}", w.libs[l].name, w.libs[a].name);
        }
    }
    // the library name itself, and the dependency set, are committed to
    let mut lib = before[l].clone();
    let name = &w.libs[l].name[..w.libs[l].name.len().min(99)];
    lib.name = liname(&format!("{name}{}", if w.libs[l].name == format!("{name}x") { "y" } else { "x" }));
    ensure!(lib.id() != before[l].id(), "library id does not commit to its name");
    let mut lib = before[l].clone();
    if lib.import(Dependency::with(libid(src.bytes(32).try_into().unwrap()), liname("ZzzOther"))).is_ok() {
        ensure!(lib.id() != before[l].id(), "library id does not commit to its dependencies");
    }
    let mut lib = before[l].clone();
    if lib.populate(tyname("ZzzOther"), Ty::U8).is_ok() {
        ensure!(lib.id() != before[l].id(), "library id does not commit to an added type");
    }
    Ok(())
}

/// Libraries of any number of types and dependencies, of which one may have the name of the library (an older version of it).
fn c07_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match src.below(12) {
        0 => *src.pick(&[4095usize, 4096, 4097, 8191, 32768, 65534, 65535]),
        1..=3 => *src.pick(&[127usize, 128, 255, 256, 257, 511, 512, 513, 1000, 1024, 2049]),
        _ => src.usize(1, 40),
    };
    let m = *src.pick(&[0usize, 1, 2, 3, 8, 16, 17, 127, 128, 200, 254, 255]);
    let name = src.pick(&["A", "Large", "Std", "_Lib"]).to_string();
    let tag = src.below(1000);
    let types: BTreeMap<String, MTy> = (0..n)
        .map(|i| {
            let t = match i % 3 {
                0 => MTy::Enum(vec![(format!("v{tag}"), (i % 251) as u8)]),
                1 => MTy::Struct(vec![(format!("f{}", i / 7), Ref::Inline(Box::new(MTy::Prim(1))))]),
                _ => MTy::Array(Ref::Inline(Box::new(MTy::Prim(1))), i as u16),
            };
            (format!("T{}", i * 7919 % 65537), t)
        })
        .collect();
    let mut deps: BTreeMap<Id, String> = BTreeMap::new();
    let own = src.below(3) == 0;
    for i in 0..m {
        let same = i == 0 && own;
        deps.insert(tagged(b"dependency", format!("{tag} {i}").as_bytes()), if same { name.clone() } else { format!("Dep{}", i * 7 % 256) });
    }
    let id = |types: &BTreeMap<String, MTy>, deps: &BTreeMap<Id, String>| -> Id {
        let mut w = W::default();
        w.name(&name);
        w.u8(deps.len() as u8);
        deps.keys().for_each(|d| w.raw(d));
        w.u16(types.len() as u16);
        types.iter().for_each(|(n, t)| w.raw(&World::sem_id(&[], Some(n), t)));
        tagged(LIB_TAG, &w.0)
    };
    let build = |types: &BTreeMap<String, MTy>, deps: &BTreeMap<Id, String>| -> TypeLib {
        let none = |_: &Ref| -> LibRef { unreachable!() };
        let inline = |r: &Ref| match r {
            Ref::Inline(t) => match &**t {
                MTy::Prim(c) => LibRef::Inline(Ty::Primitive(strict_encoding::Primitive::from_code(*c))),
                _ => none(r),
            },
            _ => none(r),
        };
        TypeLib {
            name: liname(&name),
            dependencies: Confined::try_from(deps.iter().map(|(id, n)| Dependency::with(libid(*id), liname(n))).collect::<BTreeSet<_>>()).unwrap(),
            extern_types: Default::default(),
            types: Confined::try_from(types.iter().map(|(n, t)| (tyname(n), t.to_ty(&inline))).collect::<BTreeMap<_, _>>()).unwrap(),
        }
    };
    ctx.sample(|| format!("library {name} of {n} types and {m} dependencies"));
    ctx.fingerprint(format!("{name} {n} {m} {tag} {:?}", deps.keys().next()).as_bytes());
    ctx.nontrivial = n > 40 || m > 0;
    ctx.class_if("over 4000 types", n > 4000);
    ctx.class_if("over 16 dependencies", m > 16);
    let lib = build(&types, &deps);
    let want = id(&types, &deps);
    ensure!(lib.id() == libid(want), "id of library {name} with {n} types and {m} dependencies is not the specified one");
    ensure!(lib.to_dependency() == Dependency::with(libid(want), liname(&name)), "dependency record of library {name}");
    let (mut t2, mut d2) = (types.clone(), deps.clone());
    if m > 0 && src.bool() {
        let k = *deps.keys().nth(src.usize(0, m - 1)).unwrap();
        d2.remove(&k);
    } else if n > 1 {
        let k = types.keys().nth(src.usize(0, n - 1)).unwrap();
        t2.remove(k);
    } else {
        return Ok(());
    }
    let cut = build(&t2, &d2);
    ensure!(cut.id() != lib.id() && cut.id() == libid(id(&t2, &d2)), "id of library {name} with {} types and {} dependencies is not the specified one", t2.len(), d2.len());
    Ok(())
}

// ------------------------------------------------------------------ C08 editing a library

static C08: Prop = Prop {
    id: "C08",
    rule: "histories of import/populate calls with clashing names and ids against a map model, up to the 255 dependency limit; non-trivial: a call is refused",
    subs: &[Sub { name: "history", quick: 20_000, thorough: 600_000, run: c08 }],
    known: &[],
    assumptions: &[],
};

fn c08(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut lib = TypeLib {
        name: liname("Hist"),
        dependencies: Confined::default(),
        extern_types: Confined::default(),
        types: Confined::with_key_value(tyname("Base"), Ty::UNIT),
    };
    let mut deps: BTreeMap<Id, String> = default();
    let mut types: BTreeMap<String, MTy> = BTreeMap::from([("Base".to_string(), MTy::Prim(0))]);
    let (mut refused, mut full) = (0, false);
    let many = src.chance(1, 20);
    let n = if many { src.usize(250, 330) } else { src.usize(1, 24) };
    let pool = if many { *src.pick(&[400, 5_000, 100_000]) } else { 10 };
    let mut log = vec![];
    for _ in 0..n {
        if many || src.bool() {
            let k = src.below(pool);
            let k2 = if src.chance(1, 6) { src.below(pool) } else { k };
            let id = tagged(b"dep", &k.to_le_bytes());
            let name = format!("Dep{k2}");
            let clash = deps.contains_key(&id);
            let clash_name = deps.values().any(|x| *x == name);
            let before = lib.clone();
            let r = lib.import(Dependency::with(libid(id), liname(&name)));
            log.push(format!("import({k},{name}) -> {}", r.is_ok()));
            match r {
                Ok(()) => {
                    ensure!(!clash, "a dependency with the same id imported twice");
                    ensure!(deps.len() < 255, "more than 255 dependencies");
                    deps.insert(id, name);
                }
                Err(CompileError::DuplicatedDependency(d)) => {
                    ensure!(clash || clash_name, "fresh dependency reported as a duplicate");
                    ensure!(d.id == libid(id) && d.name.as_str() == name, "error names another dependency");
                    ensure!(lib == before, "refused import changes the library");
                    refused += 1;
                }
                Err(CompileError::TooManyDependencies) => {
                    ensure!(deps.len() == 255, "import refused for {} dependencies", deps.len());
                    ensure!(lib == before, "refused import changes the library");
                    full = true;
                    refused += 1;
                }
                Err(e) => fail!("unexpected error {e}"),
            }
        } else {
            let name = format!("T{}", src.below(8));
            let t = MTy::Prim(src.range(1, 8) as u8);
            let before = lib.clone();
            let r = lib.populate(tyname(&name), t.to_ty(&|_| unreachable!()));
            log.push(format!("populate({name}) -> {}", r.is_ok()));
            match r {
                Ok(()) => {
                    ensure!(types.insert(name, t).is_none(), "type defined twice");
                }
                Err(CompileError::DuplicateName(n)) => {
                    ensure!(n.as_str() == name && types.contains_key(&name), "fresh type reported as a duplicate");
                    ensure!(lib == before, "refused type changes the library");
                    refused += 1;
                }
                Err(e) => fail!("unexpected error {e}"),
            }
        }
        let got: BTreeMap<Id, String> = lib.dependencies.iter().map(|d| (d.id.to_byte_array(), d.name.to_string())).collect();
        ensure!(got == deps, "dependencies differ from the model after {log:?}");
        ensure!(
            lib.types.len() == types.len() && types.iter().all(|(n, t)| lib.types.get(&tyname(n)) == Some(&t.to_ty(&|_| unreachable!()))),
            "types differ from the model after {log:?}"
        );
    }
    ctx.class_if("255 dependencies reached", full);
    ctx.class_if("refusals", refused > 0);
    ctx.nontrivial = refused > 0;
    ctx.sample(|| log.join("; "));
    Ok(())
}

// ------------------------------------------------------------------ C09 binary codec

static C09: Prop = Prop {
    id: "C09",
    rule: "random libraries, symbolic libraries, type systems and symbol tables: reference binary form (written by an independent encoder) compared with \
           the crate's, decoded back, then corrupted; non-trivial: more than two types (roundtrip), or a corrupted input the decoder got into (corrupt)",
    subs: &[
        Sub { name: "roundtrip", quick: 8_000, thorough: 300_000, run: c09_roundtrip },
        Sub { name: "corrupt", quick: 120_000, thorough: 5_000_000, run: c09_corrupt },
        Sub { name: "garbage", quick: 60_000, thorough: 3_000_000, run: c09_garbage },
        Sub { name: "invalid", quick: 60_000, thorough: 2_000_000, run: c09_invalid },
    ],
    known: &[],
    assumptions: &[],
};

fn exact<T: strict_encoding::StrictEncode + strict_encoding::StrictDecode + PartialEq>(what: &str, v: &T, bytes: &[u8]) -> Res {
    let b = ser(v);
    ensure!(b == bytes, "{what}: binary form differs from the reference encoder\n got {}\nwant {}", hex(&b), hex(bytes));
    match de::<T>(bytes) {
        Ok((d, n)) => {
            ensure!(d == *v, "{what}: decoding yields another value");
            ensure!(n == bytes.len(), "{what}: decoding leaves {} bytes", bytes.len() - n);
        }
        Err(e) => fail!("{what}: own encoding is rejected: {e}"),
    }
    Ok(())
}

pub fn import_all(w: &World, ids: &Ids, order: &[usize]) -> Result<SymbolicSys, Fail> {
    let mut b = SystemBuilder::new();
    for l in order {
        b = match b.import(w.type_lib(ids, *l)) {
            Ok(b) => b,
            Err(e) => fail!("import fails: {e}"),
        };
    }
    match b.finalize() {
        Ok(s) => Ok(s),
        Err(e) => fail!("finalize fails: {e:?}"),
    }
}

fn c09_roundtrip(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    for l in 0..w.libs.len() {
        let lib = w.type_lib(&ids, l);
        exact("library", &lib, &w.enc_type_lib(&ids, l))?;
        let sym = symbolic(&w, &ids, l)?;
        exact("symbolic library", &sym, &w.enc_symbolic_lib(&ids, l, None))?;
        use strict_encoding::{StrictDeserialize, StrictSerialize};
        let blob = lib.to_strict_serialized::<0xFFFFFF>().map_err(|e| Fail { msg: format!("serialize: {e}") })?;
        let back = TypeLib::from_strict_serialized(blob).map_err(|e| Fail { msg: format!("deserialize: {e}") })?;
        ensure!(back == lib && back.id() == lib.id(), "serialization round trip changes the library");
    }
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let sys = import_all(&w, &ids, &all)?;
    exact("type system", sys.as_types(), &w.enc_system(&ids, &w.system(&ids, &all)))?;
    let b = ser(&sys);
    exact("symbolic system", &sys, &b)?;
    exact("symbols", sys.as_symbols(), &ser(sys.as_symbols()))?;
    Ok(())
}

/// Whatever is accepted is the one and only encoding of what was decoded.
fn canonical<T: strict_encoding::StrictEncode + strict_encoding::StrictDecode + PartialEq>(what: &str, b: &[u8]) -> Result<Option<T>, Fail> {
    let Ok((v, n)) = de::<T>(b) else { return Ok(None) };
    let e = ser(&v);
    ensure!(e == b[..n], "{what}: accepted a non-canonical encoding\n  input {}\nre-coded {}", hex(&b[..n]), hex(&e));
    let Ok((v2, _)) = de::<T>(&e) else { fail!("{what}: rejects the encoding of a value it has decoded") };
    ensure!(v2 == v, "{what}: decoding is not deterministic");
    Ok(Some(v))
}

fn c09_corrupt(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = Gen { max_types: 3, max_libs: 2, huge: src.chance(1, 40), long_names: false, ..LIB_GEN };
    let w = gen_world(src, &g);
    let ids = w.ids();
    let l = w.libs.len() - 1;
    let kind = src.below(4);
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let mut b = match kind {
        0 => w.enc_type_lib(&ids, l),
        1 => w.enc_symbolic_lib(&ids, l, None),
        2 => w.enc_system(&ids, &w.system(&ids, &all)),
        _ => ser(&import_all(&w, &ids, &all)?),
    };
    corrupt(src, &mut b);
    ctx.fingerprint(&b);
    ctx.sample(|| format!("kind {kind}: {}", hex(&b)));
    let ok = match kind {
        0 => match canonical::<TypeLib>("library", &b)? {
            Some(lib) => {
                // any accepted library has an id, a symbolic form or a clean refusal, and prints
                let _ = lib.id();
                ctx.class_if("converted", lib.to_symbolic().is_ok());
                let _ = SystemBuilder::new().import(lib).map(|b| b.finalize());
                true
            }
            None => false,
        },
        1 => match canonical::<SymbolicLib>("symbolic library", &b)? {
            Some(sym) => {
                let c = sym.compile();
                ctx.class_if("compiled", c.is_ok());
                true
            }
            None => false,
        },
        2 => match canonical::<TypeSystem>("type system", &b)? {
            Some(s) => {
                let _ = s.id();
                true
            }
            None => false,
        },
        _ => canonical::<SymbolicSys>("symbolic system", &b)?.is_some(),
    };
    ctx.class_if("accepted", ok);
    ctx.nontrivial = b.len() > 8;
    Ok(())
}

/// Definitions of all kinds and sizes with one structural defect, at every place a definition may take.
fn c09_invalid(src: &mut Src, ctx: &mut Ctx) -> Res {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Defect {
        None,
        Name,
        Tag,
        Order,
        Empty,
    }
    use Defect::*;
    let n = match src.weighted(&[6, 2, 1]) {
        0 => src.usize(2, 8),
        1 => src.usize(9, 40),
        _ => *src.pick(&[64usize, 127, 128, 200, 254, 255]),
    };
    // 0 enumeration, 1 union, 2 structure, 3 tuple, 4 library, 5 type system
    let kind = src.below(6) as usize;
    let defect = match kind {
        0 | 1 => *src.pick(&[None, Name, Tag, Order, Empty]),
        2 => *src.pick(&[None, Name, Name, Empty]),
        3 => *src.pick(&[None, Empty, Empty]),
        _ => *src.pick(&[None, Name, Order]),
    };
    // members in the right order, each with its name (or id) and tag
    let mut used = BTreeSet::new();
    let mut names: Vec<String> = (0..n)
        .map(|_| {
            let base = if kind == 4 { type_name(src, &LIB_GEN) } else { field_name(src, &LIB_GEN) };
            uniq(&mut used, base)
        })
        .collect();
    let mut sysids: Vec<Id> = (0..n as u64).map(|k| tagged(b"member", &k.to_le_bytes())).collect();
    let step = src.usize(1, (255 / n).max(1));
    let mut tags: Vec<u8> = (0..n).map(|k| (k * step).min(255) as u8).collect();
    if step == 1 && tags[n - 1] < 255 && src.bool() {
        let shift = src.usize(0, 255 - tags[n - 1] as usize) as u8;
        tags.iter_mut().for_each(|t| *t += shift);
    }
    if kind == 4 {
        names.sort();
    }
    sysids.sort();
    let i = src.usize(0, n - 2);
    let j = if src.bool() { i + 1 } else { src.usize(i + 1, n - 1) };
    match defect {
        Name => {
            names[j] = names[i].clone();
            sysids[j] = sysids[i];
            if kind >= 4 {
                // next to each other, for the order to remain as it was
                names[i + 1..].sort();
                sysids[i + 1..].sort();
            }
        }
        Tag => {
            if src.bool() {
                tags[j] = tags[i];
            } else {
                // in order, apart from the repetition
                tags[i + 1] = tags[i];
            }
        }
        Order => {
            names.swap(i, j);
            sysids.swap(i, j);
            tags.swap(i, j);
        }
        _ => {}
    }
    let m = if defect == Empty { 0 } else { n };
    // where the definition stands: resolved, compiled or symbolic type, or an inline type of one
    let place = if kind < 4 { src.below(8) as usize } else { 0 };
    let mut w = W::default();
    // an inline type may only be a definition up to the third level
    let inl = [0usize, 0, 0, 1, 2, 3, 1, 2][place];
    let head = |w: &mut W| {
        w.name("Invalid");
        w.u8(0);
        w.u8(0);
    };
    let outer = src.below(3);
    let mut tail = vec![];
    if place >= 6 {
        head(&mut w);
        if place == 6 {
            w.u16(1);
        } else {
            w.u64(1);
        }
        w.name("Bad");
    }
    for _ in 0..inl {
        w.u8([7, 8, 5][outer as usize]);
        if outer == 2 {
            w.u8(1);
        }
        w.u8(0);
        tail.extend(vec![0u8; [2, 16, 0][outer as usize]]);
    }
    let unit = |w: &mut W| match place {
        0 => w.raw(&sysids[0]),
        // an innermost type refers to ids only
        5 => {
            w.u8(0);
            w.raw(&sysids[0])
        }
        _ => {
            w.u8(1);
            if place == 2 || place == 7 {
                w.name("Other")
            } else {
                w.raw(&sysids[0])
            }
        }
    };
    match kind {
        0 => {
            w.u8(3);
            w.u8(m as u8);
            for k in 0..m {
                w.name(&names[k]);
                w.u8(tags[k]);
            }
        }
        1 => {
            w.u8(4);
            w.u8(m as u8);
            for k in 0..m {
                w.u8(tags[k]);
                w.name(&names[k]);
                unit(&mut w);
            }
        }
        2 => {
            w.u8(6);
            w.u8(m as u8);
            for k in 0..m {
                w.name(&names[k]);
                unit(&mut w);
            }
        }
        3 => {
            w.u8(5);
            w.u8(m as u8);
            for _ in 0..m {
                unit(&mut w);
            }
        }
        4 => {
            head(&mut w);
            w.u16(n as u16);
            for k in 0..n {
                w.name(&names[k]);
                w.raw(&[0, 1]);
            }
        }
        _ => {
            w.raw(&[n as u8, 0, 0]);
            for id in &sysids {
                w.raw(id);
                w.raw(&[0, 1]);
            }
        }
    }
    w.raw(&tail);
    let b = w.0;
    ctx.fingerprint(&b);
    ctx.class(["enumeration", "union", "structure", "tuple", "library", "type system"][kind]);
    ctx.class(["sound", "repeated name", "repeated tag", "unordered", "no members"][defect as usize]);
    ctx.class_if("inline", inl > 0);
    ctx.class_if("more than 12 members", n > 12);
    ctx.nontrivial = defect != None;
    ctx.sample(|| format!("{defect:?} kind {kind} place {place} members {n}: {}", hex(&b[..b.len().min(60)])));
    let ok = match (kind, place) {
        (4, _) => canonical::<TypeLib>("library", &b)?.is_some(),
        (5, _) => canonical::<TypeSystem>("type system", &b)?.is_some(),
        (_, 0) => canonical::<Ty<SemId>>("resolved type", &b)?.is_some(),
        (_, 2) => canonical::<Ty<TranspileRef>>("symbolic type", &b)?.is_some(),
        (_, 6) => canonical::<TypeLib>("library", &b)?.is_some(),
        (_, 7) => canonical::<SymbolicLib>("symbolic library", &b)?.is_some(),
        _ => canonical::<Ty<LibRef>>("compiled type", &b)?.is_some(),
    };
    ensure!(ok == (defect == None), "a definition ({defect:?}, kind {kind}, place {place}, {n} members) is {}: {}", if ok { "accepted" } else { "refused" }, hex(&b));
    Ok(())
}

fn c09_garbage(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.usize(0, 60);
    let small = src.bool();
    let b: Vec<u8> = (0..n).map(|_| if small { src.below(12) as u8 } else { *src.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, b'A', b'a', b'_', 0x40, 0xff]) }).collect();
    ctx.fingerprint(&b);
    let mut ok = false;
    ok |= canonical::<Ty<LibRef>>("compiled type", &b)?.is_some();
    ok |= canonical::<Ty<InlineRef>>("inline type", &b)?.is_some();
    ok |= canonical::<Ty<InlineRef1>>("inline type", &b)?.is_some();
    ok |= canonical::<Ty<InlineRef2>>("inline type", &b)?.is_some();
    ok |= canonical::<Ty<TranspileRef>>("symbolic type", &b)?.is_some();
    ok |= canonical::<Ty<SemId>>("resolved type", &b)?.is_some();
    ok |= canonical::<TypeLib>("library", &b)?.is_some();
    ok |= canonical::<SymbolicLib>("symbolic library", &b)?.is_some();
    ok |= canonical::<TypeSystem>("type system", &b)?.is_some();
    ok |= canonical::<SymbolicSys>("symbolic system", &b)?.is_some();
    ok |= canonical::<Dependency>("dependency", &b)?.is_some();
    ok |= canonical::<Step>("path step", &b)?.is_some();
    ok |= canonical::<ItemCase>("item", &b)?.is_some();
    ctx.class_if("accepted by some decoder", ok);
    ctx.nontrivial = ok && b.len() > 1;
    ctx.sample(|| hex(&b));
    Ok(())
}

// ------------------------------------------------------------------ C10 armor

static C10: Prop = Prop {
    id: "C10",
    rule: "armored libraries, type systems and symbol tables, intact, with the payload re-encoded for an altered object under the old headers, and with \
           corrupted text; non-trivial: the text was altered",
    subs: &[
        Sub { name: "armor", quick: 6_000, thorough: 200_000, run: c10 },
        Sub { name: "text", quick: 16_000, thorough: 500_000, run: c10_text },
    ],
    known: &[],
    assumptions: &["the identity of a type system covers the set of its type ids; the identity of a library covers name, dependencies and types"],
};

fn c10(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = Gen { huge: src.chance(1, 30), ..LIB_GEN };
    let mut w = gen_world(src, &g);
    let ids = w.ids();
    ctx.fingerprint(w.describe().as_bytes());
    let l = w.any_lib(src);
    let lib = w.type_lib(&ids, l);
    let a = lib.to_ascii_armored_string();
    ctx.sample(|| a.clone());
    match TypeLib::from_ascii_armored_str(&a) {
        Ok(b) => ensure!(b == lib && b.id() == lib.id(), "armor round trip changes the library"),
        Err(e) => fail!("own armor is rejected: {e}"),
    }
    ensure!(a.contains(&format!("Id: {}", lib.id())) && a.contains(&format!("Name: {}", lib.name)), "armor headers do not describe the library");
    let headers: Vec<(&str, &str)> = a.lines().skip(1).take_while(|l| !l.trim().is_empty()).filter_map(|l| l.split_once(": ")).collect();
    let deps: BTreeSet<String> = headers.iter().filter(|h| h.0 == "Dependencies").flat_map(|h| h.1.split([',', ' ']).filter(|s| !s.is_empty()).map(String::from)).collect();
    let want: BTreeSet<String> = w.deps(l).into_iter().map(|d| format!("{}#{}", w.libs[d].name, libid(ids.libs[d]).to_baid64_mnemonic())).collect();
    ensure!(deps == want, "armor headers list dependencies {deps:?} instead of {want:?}");
    let header = |name: &str| headers.iter().filter(|h| h.0 == name).map(|h| h.1.to_string()).collect::<Vec<_>>();
    ensure!(header("Id") == [lib.id().to_string()] && header("Name") == [lib.name.to_string()], "armor headers do not describe the library");
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let sys = import_all(&w, &ids, &all)?;
    let sa = sys.to_ascii_armored_string();
    match SymbolicSys::from_ascii_armored_str(&sa) {
        Ok(b) => ensure!(b == sys, "armor round trip changes the symbolic system"),
        Err(e) => fail!("own armor is rejected: {e}"),
    }
    let ts = sys.clone().into_type_system();
    let ta = ts.to_ascii_armored_string();
    match TypeSystem::from_ascii_armored_str(&ta) {
        Ok(b) => ensure!(b == ts, "armor round trip changes the type system"),
        Err(e) => fail!("own armor is rejected: {e}"),
    }
    ensure!(TypeSystem::from_ascii_armored_str(&a).is_err() && TypeLib::from_ascii_armored_str(&ta).is_err(), "armor of another kind accepted");
    // swap the body for the body of an altered library
    if let Some((ml, _, what)) = mutate_world(src, &mut w) {
        let ids2 = w.ids();
        ctx.nontrivial = true;
        ctx.class(what);
        let body = |s: &str| {
            let i = s.find("\n\n").unwrap();
            (s[..i].to_string(), s[i..].to_string())
        };
        let lib2 = w.type_lib(&ids2, ml);
        let lib1 = {
            let mut all = w.clone();
            let _ = &mut all;
            lib2.clone()
        };
        let _ = lib1;
        let (head, _) = body(&a);
        let (_, tail) = body(&w.type_lib(&ids2, l).to_ascii_armored_string());
        let same = ids2.libs[l] == ids.libs[l];
        let r = TypeLib::from_ascii_armored_str(&format!("{head}{tail}"));
        ensure!(r.is_ok() == same, "a library with edit `{what}` under the old headers: accepted = {}", r.is_ok());
        let sys2 = import_all(&w, &ids2, &all)?;
        let r = TypeSystem::from_ascii_armored_str(&format!("{}{}", body(&ta).0, body(&sys2.as_types().to_ascii_armored_string()).1));
        ensure!(r.is_err(), "type system with edit `{what}` accepted under the old id");
        let r = SymbolicSys::from_ascii_armored_str(&format!("{}{}", body(&sa).0, body(&sys2.to_ascii_armored_string()).1));
        ensure!(r.is_err(), "symbolic system with edit `{what}` accepted under the old id");
    }
    Ok(())
}

fn c10_text(src: &mut Src, ctx: &mut Ctx) -> Res {
    let g = Gen { max_types: 2, max_libs: 2, huge: false, long_names: false, ..LIB_GEN };
    let w = gen_world(src, &g);
    let ids = w.ids();
    let l = w.libs.len() - 1;
    let lib = w.type_lib(&ids, l);
    let mut t = lib.to_ascii_armored_string().into_bytes();
    for _ in 0..src.range(1, 2) {
        let i = src.usize(0, t.len() - 1);
        match src.below(4) {
            0 => t[i] = src.range(32, 126) as u8,
            1 => {
                t.remove(i);
            }
            2 => t.insert(i, src.range(32, 126) as u8),
            _ => t[i] = b'\n',
        }
    }
    let t = String::from_utf8(t).unwrap();
    ctx.fingerprint(t.as_bytes());
    ctx.nontrivial = true;
    ctx.sample(|| t.clone());
    match guarded(|| TypeLib::from_ascii_armored_str(&t)) {
        Ok(Ok(b)) => {
            ctx.class("accepted");
            let id = t.lines().find_map(|l| l.strip_prefix("Id").and_then(|l| l.trim_start().strip_prefix(':'))).map(|s| s.trim().to_string()).unwrap_or_default();
            ensure!(TypeLibId::from_str(&id).ok() == Some(b.id()), "accepted a library whose id {} is not the one in the header {id}", b.id());
            ensure!(b.id() == lib.id(), "corrupted text accepted as another library");
        }
        Ok(Err(_)) => {}
        // the armor text parser is a third-party crate: only panics raised inside the crate under test count
        Err(p) if p.contains("/repo/src/") => fail!("{p}"),
        Err(_) => ctx.class("third-party parser panic"),
    }
    Ok(())
}

// ------------------------------------------------------------------ C11 textual serialization

static C11: Prop = Prop {
    id: "C11",
    rule: "random libraries, symbolic libraries and systems through JSON and YAML (values and text) and back; non-trivial: more than two types",
    subs: &[Sub { name: "serde", quick: 4_000, thorough: 150_000, run: c11 }],
    known: &[],
    assumptions: &[],
};

fn via<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(what: &str, v: &T) -> Res {
    let j = match serde_json::to_string(v) {
        Ok(j) => j,
        Err(e) => fail!("{what} has no JSON form: {e}"),
    };
    match serde_json::from_str::<T>(&j) {
        Ok(b) => ensure!(b == *v, "{what} changes through JSON: {j}"),
        Err(e) => fail!("{what}: own JSON is rejected: {e}: {j}"),
    }
    let y = match serde_yaml::to_string(v) {
        Ok(j) => j,
        // a limitation of the YAML writer, which cannot put an enum directly into an enum
        Err(e) if e.to_string().contains("nested enums") => return Ok(()),
        Err(e) => fail!("{what} has no YAML form: {e}"),
    };
    match serde_yaml::from_str::<T>(&y) {
        Ok(b) => ensure!(b == *v, "{what} changes through YAML: {y}"),
        Err(e) => fail!("{what}: own YAML is rejected: {e}: {y}"),
    }
    Ok(())
}

fn c11(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    for l in 0..w.libs.len() {
        via("library", &w.type_lib(&ids, l))?;
        via("symbolic library", &symbolic(&w, &ids, l)?)?;
    }
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let sys = import_all(&w, &ids, &all)?;
    via("type system", sys.as_types())?;
    via("symbolic system", &sys)?;
    Ok(())
}

// ------------------------------------------------------------------ C12 textual ids

static C12: Prop = Prop {
    id: "C12",
    rule: "random 32-byte ids of the three kinds in every textual form, then corrupted; non-trivial: the text was altered",
    subs: &[Sub { name: "ids", quick: 60_000, thorough: 3_000_000, run: c12 }],
    known: &[],
    assumptions: &[],
};

fn c12_one<T>(src: &mut Src, ctx: &mut Ctx, id: T, hri: &str, others: &[&str]) -> Res
where T: Copy + Eq + std::fmt::Display + std::fmt::Debug + FromStr + DisplayBaid64 + serde::Serialize + serde::de::DeserializeOwned + strict_encoding::StrictEncode + strict_encoding::StrictDecode
{
    let mn = id.to_baid64_mnemonic();
    for s in [format!("{id}"), format!("{id:-}"), format!("{id:#}"), format!("{id:-#}"), id.to_baid64_string()] {
        match T::from_str(&s) {
            Ok(b) => ensure!(b == id, "{s} parses into another id"),
            Err(_) => fail!("own text {s} is not parsed"),
        }
    }
    ensure!(format!("{id}").starts_with(&format!("{hri}:")) && format!("{id}").ends_with(&format!("#{mn}")), "default text form {id}");
    // the form under which ids are published
    let abc = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_~";
    let payload = id.to_baid64_payload();
    let bits = |i: usize| (i..i + 6).fold(0usize, |a, b| a << 1 | if b < 256 { (payload[b / 8] >> (7 - b % 8) & 1) as usize } else { 0 });
    let digits: String = (0..43).map(|i| abc[bits(i * 6)] as char).collect();
    let mut chunked = digits[..8].to_string();
    for i in 0..5 {
        chunked += &format!("-{}", &digits[8 + i * 7..15 + i * 7]);
    }
    ensure!(format!("{id}") == format!("{hri}:{chunked}#{mn}") && format!("{id:-#}") == chunked, "{id} is not {hri}:{chunked}#{mn}");
    for s in [digits.clone(), format!("{hri}:{digits}"), format!("{digits}#{mn}"), format!("{hri}:{digits}#{mn}")] {
        ensure!(T::from_str(&s).ok() == Some(id), "unchunked form {s} is not parsed");
    }
    for o in others {
        let s = format!("{o}:{id:-}");
        ensure!(T::from_str(&s).is_err(), "an id of another kind {s} is accepted");
    }
    ensure!(ser(&id) == id.to_baid64_payload(), "binary form of an id");
    let j = serde_json::to_string(&id).unwrap();
    ensure!(serde_json::from_str::<T>(&j).ok() == Some(id), "id changes through JSON {j}");
    // corruption under the checksum is detected
    let mut t = format!("{id}").into_bytes();
    let i = src.usize(0, t.len() - 1);
    match src.below(3) {
        0 => t[i] = src.range(33, 126) as u8,
        1 => {
            t.remove(i);
        }
        _ => t.insert(i, src.range(33, 126) as u8),
    }
    let t = String::from_utf8(t).unwrap();
    ctx.nontrivial = true;
    ctx.sample(|| t.clone());
    if let Ok(b) = T::from_str(&t) {
        ctx.class("corrupted text parsed");
        // either the mnemonic is gone or it agrees
        if t.contains('#') {
            ensure!(t.ends_with(&format!("#{}", b.to_baid64_mnemonic())) || b == id, "{t} parses in spite of its checksum");
        }
    }
    Ok(())
}

fn c12(src: &mut Src, ctx: &mut Ctx) -> Res {
    let b: Id = if src.chance(1, 10) { [*src.pick(&[0, 0xff, 1, 0x80]); 32] } else { src.bytes(32).try_into().unwrap() };
    match src.below(3) {
        0 => {
            c12_one(src, ctx, semid(b), "semid", &["stl", "sts"])?;
            let u = Urn::from(semid(b));
            ensure!(u.to_string() == format!("urn:sten:id:{}", semid(b)) && format!("{u:#}") == format!("urn:sten:id:{:#}", semid(b)), "URN {u}");
            let s = u.to_string();
            ensure!(SemId::from_str(s.strip_prefix("urn:sten:id:").unwrap()).ok() == Some(semid(b)), "URN payload");
        }
        1 => {
            c12_one(src, ctx, libid(b), "stl", &["semid", "sts"])?;
            let u = Urn::from(libid(b));
            ensure!(u.to_string() == format!("urn:sten:lib:{}", libid(b)) && format!("{u:#}") == format!("urn:sten:lib:{:#}", libid(b)), "URN {u}");
        }
        _ => c12_one(src, ctx, TypeSysId::from_byte_array(b), "sts", &["stl", "semid"])?,
    }
    Ok(())
}

// ------------------------------------------------------------------ C13 export

static C13: Prop = Prop {
    id: "C13",
    rule: "random libraries exported into a scratch directory in every format and read back; non-trivial: more than two types",
    subs: &[
        Sub { name: "export", quick: 3_000, thorough: 60_000, run: c13 },
        Sub { name: "args", quick: 150, thorough: 2_000, run: c13_args },
    ],
    known: &[],
    assumptions: &["files are written into a scratch directory created and removed by the check"],
};

/// Runs this program as an exporter which takes the library from its input, see `exporter`.
fn exported(args: &[&str], lib: &[u8], dir: &std::path::Path) -> Result<Option<Vec<u8>>, Fail> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .env("STPROP_EXPORTER", "1")
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| Fail { msg: format!("exporter doesn't start: {e}") })?;
    let mut input = child.stdin.take().unwrap();
    let data = lib.to_vec();
    let t = std::thread::spawn(move || {
        let _ = input.write_all(&data);
    });
    let out = child.wait_with_output().map_err(|e| Fail { msg: format!("exporter fails: {e}") })?;
    t.join().unwrap();
    Ok(if out.status.success() { Some(out.stdout) } else { None })
}

/// What programs exporting libraries do: format and directory come from their arguments.
pub fn exporter() -> i32 {
    use std::io::Read;
    let (format, dir) = strict_types::parse_args();
    let mut data = vec![];
    std::io::stdin().read_to_end(&mut data).unwrap();
    let (lib, _) = de::<TypeLib>(&data).unwrap();
    match lib.serialize(format, dir, "0.1.0", None) {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

fn c13_args(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    let l = w.any_lib(src);
    let lib = w.type_lib(&ids, l);
    let data = ser(&lib);
    let dir = std::env::temp_dir().join(format!("stprop-args-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    for d in ["", "stl", "out"] {
        std::fs::create_dir_all(dir.join(d)).unwrap();
    }
    ctx.nontrivial = true;
    let r = (|| {
        let (f, ext) = *src.pick(&[(StlFormat::Binary, "stl"), (StlFormat::Armored, "sta"), (StlFormat::Source, "sty")]);
        // the file made by a direct call
        lib.serialize(f, Some(&dir), "0.1.0", None).map_err(|e| Fail { msg: format!("export fails: {e}") })?;
        let name = format!("{}@0.1.0.{ext}", lib.name);
        let want = std::fs::read(dir.join(&name)).unwrap();
        let arg = if src.bool() { format!("--{ext}") } else { ext.to_string() };
        ctx.sample(|| format!("{} {arg}", lib.name));
        match src.below(5) {
            0 => {
                // source into the output
                let Some(out) = exported(&[], &data, &dir)? else { fail!("export without arguments fails") };
                lib.serialize(StlFormat::Source, Some(&dir), "0.1.0", None).map_err(|e| Fail { msg: format!("export fails: {e}") })?;
                let want = std::fs::read(dir.join(format!("{}@0.1.0.sty", lib.name))).unwrap();
                ensure!(out == want, "standard output has other content than the file");
                ctx.class("standard output");
            }
            1 => {
                let Some(_) = exported(&[&arg], &data, &dir)? else { fail!("export as {arg} fails") };
                let got = std::fs::read(dir.join("stl").join(&name)).ok();
                ensure!(got.as_ref() == Some(&want), "export as {arg} doesn't create the same file in the default directory");
                ctx.class("default directory");
            }
            2 => {
                let Some(_) = exported(&[&arg, "out"], &data, &dir)? else { fail!("export as {arg} fails") };
                let got = std::fs::read(dir.join("out").join(&name)).ok();
                ensure!(got.as_ref() == Some(&want), "export as {arg} doesn't create the same file in the given directory");
                ctx.class("given directory");
            }
            3 => {
                let bad = *src.pick(&["--stx", "bin", "", "--", "st", "styx"]);
                ensure!(exported(&[bad, "out"], &data, &dir)?.is_none(), "export in unknown format {bad} succeeds");
                ctx.class("unknown format");
            }
            _ => {
                // nothing can be written
                let place = if src.bool() {
                    let _ = std::fs::remove_file(dir.join("out").join(&name));
                    std::os::unix::fs::symlink("/dev/full", dir.join("out").join(&name)).unwrap();
                    dir.join("out")
                } else {
                    dir.join("absent")
                };
                match guarded(|| lib.serialize(f, Some(&place), "0.1.0", None)) {
                    Ok(Ok(())) => fail!("export to {place:?}, where nothing can be written, succeeds"),
                    Ok(Err(_)) => {}
                    Err(p) => fail!("export to {place:?}: {p}"),
                }
                ctx.class("nothing can be written");
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn c13(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    let l = w.any_lib(src);
    let lib = w.type_lib(&ids, l);
    let dir = std::env::temp_dir().join(format!("stprop-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::create_dir_all(&dir).unwrap();
    let r = (|| {
        for (f, ext) in [(StlFormat::Binary, "stl"), (StlFormat::Armored, "sta"), (StlFormat::Source, "sty")] {
            ensure!(f.to_string() == ext && StlFormat::from_str(ext).ok() == Some(f), "format name");
            let path = dir.join(format!("{}@0.1.0.{ext}", lib.name));
            // the file may exist from a previous export, of any size
            if src.bool() {
                let n = *src.pick(&[0, 1, 100, 3_000, 20_000]);
                std::fs::write(&path, vec![b'#'; n]).unwrap();
                ctx.class("file exists");
            }
            if let Err(e) = lib.serialize(f, Some(&dir), "0.1.0", Some("\n  Note: x")) {
                fail!("export fails: {e}");
            }
            let data = match std::fs::read(&path) {
                Ok(d) => d,
                Err(e) => fail!("export does not create {path:?}: {e}"),
            };
            match f {
                StlFormat::Binary => match de::<TypeLib>(&data) {
                    Ok((b, n)) => ensure!(b == lib && n == data.len(), "binary export is not the library"),
                    Err(e) => fail!("binary export is not readable: {e}"),
                },
                StlFormat::Armored => match TypeLib::from_ascii_armored_str(std::str::from_utf8(&data).unwrap()) {
                    Ok(b) => ensure!(b == lib, "armored export is not the library"),
                    Err(e) => fail!("armored export is not readable: {e}"),
                },
                StlFormat::Source => {
                    let text = String::from_utf8(data).unwrap();
                    ensure!(text.contains("Version: 0.1.0\n  Note: x\n") && text.contains(&format!("Name: {}\n", lib.name)), "source version and notes");
                    ensure!(text.contains(&format!("Id: {}", lib.id())) && text.contains(&format!("typelib {}\n", lib.name)), "source header");
                    let mut mn = None;
                    let mut seen: BTreeSet<String> = default();
                    for line in text.lines() {
                        if let Some(m) = line.strip_prefix("@mnemonic(") {
                            mn = Some(m.trim_end_matches(')').to_string());
                        } else if let Some(rest) = line.strip_prefix("data ") {
                            let name = rest.split_whitespace().next().unwrap().to_string();
                            let Some(i) = w.libs[l].types.iter().position(|x| x.0 == name) else { fail!("source defines unknown type {name}") };
                            let want = semid(ids.types[l][i]).to_baid64_mnemonic();
                            ensure!(mn == Some(want.clone()), "source marks {name} with mnemonic {mn:?}, the mnemonic of its id is {want}");
                            seen.insert(name);
                            mn = None;
                        }
                    }
                    ensure!(seen.len() == w.libs[l].types.len(), "source lists {} of {} types", seen.len(), w.libs[l].types.len());
                    for d in w.deps(l) {
                        ensure!(text.contains(&format!("import {}", w.dependency(&ids, d))), "source misses a dependency");
                    }
                    for (el, et) in w.externs(l) {
                        ensure!(
                            text.contains(&format!("  use {}#{}", w.libs[el].types[et].0, semid(ids.types[el][et]).to_baid64_mnemonic())),
                            "source misses an imported type"
                        );
                    }
                }
            }
        }
        ensure!(StlFormat::from_str("bin").is_err(), "unknown format name accepted");
        let sym = symbolic(&w, &ids, l)?;
        let path = dir.join(format!("{}@0.2.0.sty", lib.name));
        if src.bool() {
            std::fs::write(&path, vec![b'#'; 20_000]).unwrap();
        }
        if let Err(e) = sym.serialize(Some(&dir), "0.2.0", None) {
            fail!("symbolic export fails: {e}");
        }
        let text = std::fs::read_to_string(path).unwrap();
        let (head, body) = text.split_once("-}\n").unwrap_or(("", &text));
        ensure!(head.contains(&format!("Name: {}\n", lib.name)) && head.contains("Version: 0.2.0"), "symbolic export lacks name and version");
        ensure!(body.trim() == sym.to_string().trim(), "symbolic export is something else than the source text");
        let _ = lib.to_string();
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

//! Properties of type systems: assembly, symbols, extraction, identity, layouts.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::ByteArray;
use strict_encoding::Sizing;
use strict_types::ast::ItemCase;
use strict_types::layout::vesper::{Attr, Pred, TypeVesper};
use strict_types::typesys::{Error as SysError, NestedCase, TypeFqn, TypeInfo};
use strict_types::{SemId, SymbolicSys, SystemBuilder, Ty, TypeLib, TypeLibId, TypeSystem};

use crate::engine::*;
use crate::model::*;
use crate::props_lib::note_world;
use crate::util::*;

pub const PROPS: &[&Prop] = &[&C14, &C15, &C16, &C17, &C18, &C19];

/// A world where now and then a definition is repeated, under the same name, in a later library.
pub fn shared_world(src: &mut Src, ctx: &mut Ctx, g: &Gen) -> (World, Ids) {
    let mut w = gen_world(src, g);
    if w.libs.len() > 1 && src.below(3) > 0 {
        for _ in 0..src.range(1, 3) {
            let i = src.usize(0, w.libs.len() - 2);
            let j = src.usize(i + 1, w.libs.len() - 1);
            let t = src.usize(0, w.libs[i].types.len() - 1);
            let (n, ty) = w.libs[i].types[t].clone();
            if !w.libs[j].types.iter().any(|x| x.0 == n) {
                w.libs[j].types.push((n, ty));
            }
        }
    }
    let ids = w.ids();
    note_world(ctx, &w);
    ctx.class_if("identical definitions in two libraries", has_shared(&ids));
    (w, ids)
}

fn import(libs: impl IntoIterator<Item = TypeLib>) -> Result<Result<SymbolicSys, Vec<SysError>>, Fail> {
    let mut b = SystemBuilder::new();
    for l in libs {
        b = match b.import(l) {
            Ok(b) => b,
            Err(e) => fail!("import failed: {e}"),
        };
    }
    Ok(b.finalize())
}

fn types_of(s: &TypeSystem) -> BTreeMap<Id, Ty<SemId>> { s.iter().map(|(i, t)| (i.to_byte_array(), t.clone())).collect() }

fn model_types(w: &World, ids: &Ids, sys: &BTreeMap<Id, MTy>) -> BTreeMap<Id, Ty<SemId>> {
    sys.iter().map(|(i, t)| (*i, w.sys_ty(ids, t))).collect()
}

/// All inline types below a type.
fn inline_types(w: &World, ids: &Ids, t: &MTy, out: &mut BTreeMap<Id, MTy>) {
    for r in t.refs() {
        if let Ref::Inline(i) = r {
            out.insert(w.ref_id(ids, r), (**i).clone());
            inline_types(w, ids, i, out);
        }
    }
}

// ------------------------------------------------------------------ C14 assembly

static C14: Prop = Prop {
    id: "C14",
    rule: "random worlds, of which a random selection of libraries is imported in random order, intact, or with a type or the declared dependencies \
           taken out; non-trivial: the assembly must be refused, or two or more libraries are combined",
    subs: &[Sub { name: "assembly", quick: 25_000, thorough: 500_000, run: c14 }],
    known: &[],
    assumptions: &[],
};

fn c14(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = shared_world(src, ctx, &Gen { huge: true, ..LIB_GEN });
    let mut order: Vec<usize> = (0..w.libs.len()).collect();
    src.shuffle(&mut order);
    let keep = if src.below(3) == 0 { order.len() } else { src.usize(1, order.len()) };
    order.truncate(keep);
    if src.chance(1, 4) {
        let again = *src.pick(&order);
        order.push(again);
    }
    let mode = src.below(5);
    let victim = *src.pick(&order);
    let mut libs = BTreeMap::new();
    let mut sys: BTreeMap<Id, MTy> = BTreeMap::new();
    for l in order.iter().copied().collect::<BTreeSet<_>>() {
        let mut lib = w.type_lib(&ids, l);
        let mut skip = None;
        if l == victim && mode >= 3 {
            match mode {
                3 => lib.dependencies = Confined::try_from(BTreeSet::new()).unwrap(),
                _ if w.libs[l].types.len() > 1 => {
                    let t = src.usize(0, w.libs[l].types.len() - 1);
                    lib.types.remove(&tyname(&w.libs[l].types[t].0)).unwrap();
                    skip = Some(t);
                }
                _ => {}
            }
        }
        for (t, (_, ty)) in w.libs[l].types.iter().enumerate() {
            if skip != Some(t) {
                sys.insert(ids.types[l][t], ty.clone());
                inline_types(&w, &ids, ty, &mut sys);
            }
        }
        libs.insert(l, lib);
    }
    let imported: BTreeSet<TypeLibId> = libs.values().map(|l| l.id()).collect();
    let absent_libs: BTreeSet<Id> =
        libs.values().flat_map(|l| l.dependencies.iter()).filter(|d| !imported.contains(&d.id)).map(|d| d.id.to_byte_array()).collect();
    let mut absent_types = BTreeSet::new();
    for (id, t) in &sys {
        for r in t.refs() {
            let i = w.ref_id(&ids, r);
            if !sys.contains_key(&i) {
                absent_types.insert((i, *id));
            }
        }
    }
    ctx.class_if("missing library", !absent_libs.is_empty());
    ctx.class_if("missing type", !absent_types.is_empty());
    ctx.class_if("missing type while all declared libraries are there", !absent_types.is_empty() && absent_libs.is_empty());
    ctx.class_if("complete", absent_types.is_empty() && absent_libs.is_empty());
    ctx.nontrivial = !absent_types.is_empty() || !absent_libs.is_empty() || libs.len() > 1;
    let d = format!("{} import {:?} mode {mode}/{victim}", w.describe(), order);
    ctx.fingerprint(d.as_bytes());
    ctx.sample(|| d);
    match import(order.iter().map(|l| libs[l].clone()))? {
        Ok(s) => {
            ensure!(
                absent_libs.is_empty() && absent_types.is_empty(),
                "incomplete system accepted: {} absent libraries, {} absent types",
                absent_libs.len(),
                absent_types.len()
            );
            ensure!(types_of(s.as_types()) == model_types(&w, &ids, &sys), "types of the assembled system differ from those of the libraries");
            for (id, t) in s.as_types().iter() {
                for (r, _) in t.iter() {
                    ensure!(s.as_types().get(*r).is_some(), "type {id} of the system refers to {r} which is not there");
                }
            }
        }
        Err(errs) => {
            let mut el = BTreeSet::new();
            let mut et = BTreeSet::new();
            for e in &errs {
                match e {
                    SysError::AbsentImport(d) => {
                        el.insert(d.id.to_byte_array());
                    }
                    SysError::InnerTypeAbsent { unknown, known } => {
                        et.insert((unknown.to_byte_array(), known.to_byte_array()));
                    }
                    e => fail!("unexpected error {e}"),
                }
            }
            ensure!(!errs.is_empty(), "failure without any error");
            ensure!(el == absent_libs, "absent libraries are reported wrongly: {errs:?}");
            ensure!(et == absent_types, "absent types are reported wrongly: {errs:?}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15 order independence

static C15: Prop = Prop {
    id: "C15",
    rule: "random worlds (many with identical definitions in several libraries) imported in two random orders with repeated imports; \
           non-trivial: the two import sequences differ",
    subs: &[Sub { name: "order", quick: 20_000, thorough: 400_000, run: c15 }],
    known: &[],
    assumptions: &[],
};

fn c15(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = shared_world(src, ctx, &LIB_GEN);
    let mut seqs = vec![];
    for _ in 0..2 {
        let mut o: Vec<usize> = (0..w.libs.len()).collect();
        src.shuffle(&mut o);
        for _ in 0..src.below(3) {
            let x = *src.pick(&o);
            let at = src.usize(0, o.len());
            o.insert(at, x);
        }
        seqs.push(o);
    }
    ctx.nontrivial = seqs[0] != seqs[1];
    let d = format!("{} orders {seqs:?}", w.describe());
    ctx.fingerprint(d.as_bytes());
    ctx.sample(|| d);
    let mut out = vec![];
    for s in &seqs {
        match import(s.iter().map(|l| w.type_lib(&ids, *l)))? {
            Ok(s) => out.push(s),
            Err(e) => fail!("complete set of libraries refused: {e:?}"),
        }
    }
    let (a, b) = (&out[0], &out[1]);
    ensure!(a.id() == b.id(), "id depends on the import order");
    ensure!(ser(a) == ser(b), "binary form depends on the import order");
    ensure!(a == b, "system depends on the import order");
    ensure!(a.to_string() == b.to_string(), "text form depends on the import order");
    ensure!(a.as_symbols().to_string() == b.as_symbols().to_string(), "text form of the symbols depends on the import order");
    let all: Vec<usize> = (0..w.libs.len()).collect();
    ensure!(types_of(a.as_types()) == model_types(&w, &ids, &w.system(&ids, &all)), "types differ from those of the libraries");
    Ok(())
}

// ------------------------------------------------------------------ C16 symbols

static C16: Prop = Prop {
    id: "C16",
    rule: "random systems (many with identical definitions in several libraries), every name and id of which is looked up, together with names and ids \
           which are not there; non-trivial: more than two types",
    subs: &[
        Sub { name: "symbols", quick: 8_000, thorough: 200_000, run: c16 },
        Sub { name: "large", quick: 24, thorough: 500, run: c16_large },
    ],
    known: &[],
    assumptions: &[],
};

fn fqn(lib: &str, name: &str) -> TypeFqn { TypeFqn::with(liname(lib), tyname(name)) }

/// Systems with thousands of types.
/// Many simple types in some libraries; the i-th type is named `T{i}` and belongs to the library `Lib{i % k}`.
fn big_world(src: &mut Src, n: usize) -> (World, usize) {
    let mut w = World::default();
    let k = *src.pick(&[1usize, 2, 7, 300]);
    let k = if n > 65535 { k.max(2) } else { k };
    w.libs = (0..k).map(|l| MLib { name: format!("Lib{l}"), types: vec![] }).collect();
    for i in 0..n {
        let t = match src.below(3) {
            0 => MTy::Enum(vec![(format!("v{i}"), 0)]),
            1 => MTy::Struct(vec![(format!("f{i}"), Ref::Inline(Box::new(MTy::Prim(1))))]),
            _ => MTy::Tuple(vec![Ref::Inline(Box::new(MTy::Prim(1))); 1 + i % 3]),
        };
        w.libs[i % k].types.push((format!("T{i}"), t));
    }
    (w, k)
}

fn c16_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[1000usize, 4095, 4096, 4097, 8000, 20_000]);
    let (w, k) = big_world(src, n);
    let ids = w.ids();
    let sys = match import((0..k).map(|l| w.type_lib(&ids, l)))? {
        Ok(s) => s,
        Err(e) => fail!("complete set of libraries refused: {e:?}"),
    };
    ctx.nontrivial = true;
    ctx.sample(|| format!("{n} types in {k} libraries"));
    ensure!(sys.as_types().as_unconfined().len() == n + 1, "system has {} types instead of {}", sys.as_types().as_unconfined().len(), n + 1);
    let mut probes: Vec<usize> = (0..150).map(|_| src.usize(0, n - 1)).collect();
    let by_id = |f: &dyn Fn(&Id, &Id) -> bool| (0..n).reduce(|a, b| if f(&ids.types[a % k][a / k], &ids.types[b % k][b / k]) { a } else { b }).unwrap();
    probes.extend([0, n - 1, by_id(&|a, b| a < b), by_id(&|a, b| a > b)]);
    for i in probes {
        let (l, t) = (i % k, i / k);
        let f = fqn(&format!("Lib{l}"), &format!("T{i}"));
        let id = semid(ids.types[l][t]);
        ensure!(sys.resolve(f.clone()) == Some(&id), "{f} resolves to {:?} in a system of {n} types", sys.resolve(f.clone()));
        ensure!(sys.lookup(id) == Some(&f), "name of {f} is {:?} in a system of {n} types", sys.lookup(id));
        ensure!(sys.get(f.clone()) == Some(&w.sys_ty(&ids, &w.libs[l].types[t].1)), "{f} gives a different type in a system of {n} types");
        let f = fqn(&format!("Lib{}", (l + 1) % k), &format!("T{i}"));
        ensure!(k == 1 || sys.resolve(f.clone()).is_none(), "{f} is found in a system of {n} types");
    }
    Ok(())
}

fn c16(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = shared_world(src, ctx, &LIB_GEN);
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let model = w.system(&ids, &all);
    let sys = match import(all.iter().map(|l| w.type_lib(&ids, *l)))? {
        Ok(s) => s,
        Err(e) => fail!("complete set of libraries refused: {e:?}"),
    };
    let back: SymbolicSys = match de(&ser(&sys)) {
        Ok((s, _)) => s,
        Err(e) => fail!("own binary form rejected: {e}"),
    };
    let mut names: BTreeMap<Id, BTreeSet<(String, String)>> = BTreeMap::new();
    for (l, lib) in w.libs.iter().enumerate() {
        for (t, (n, _)) in lib.types.iter().enumerate() {
            names.entry(ids.types[l][t]).or_default().insert((lib.name.clone(), n.clone()));
        }
    }
    for s in [&sys, &back] {
        for (id, ns) in &names {
            let ty = w.sys_ty(&ids, &model[id]);
            for (l, n) in ns {
                let f = fqn(l, n);
                ensure!(s.resolve(f.clone()) == Some(&semid(*id)), "{l}.{n} resolves to {:?}", s.resolve(f.clone()));
                ensure!(s.as_symbols().get(f.clone()) == Some(&semid(*id)), "symbol table gives a different id for {l}.{n}");
                ensure!(s.to_sem_id(f.clone()) == Some(semid(*id)), "{l}.{n} converts to a different id");
                ensure!(s.get(f.clone()) == Some(&ty), "{l}.{n} gives a different type");
                ensure!(s.type_tree(f).map(|t| t.get() == &ty) == Some(true), "type tree of {l}.{n} starts with a different type");
            }
        }
        for (id, t) in &model {
            let id2 = semid(*id);
            let ty = w.sys_ty(&ids, t);
            ensure!(s.to_sem_id(id2) == Some(id2), "id is converted into something else");
            ensure!(s.get(id2) == Some(&ty), "type found by id differs");
            ensure!(s.as_types().get(id2) == Some(&ty) && s.as_types().find(id2) == Some(&ty) && s.as_types()[id2] == ty, "type found by id differs");
            match (s.lookup(id2), names.get(id)) {
                (None, None) => {}
                (Some(f), Some(ns)) if ns.contains(&(f.lib.to_string(), f.name.to_string())) => {}
                (f, ns) => fail!("name of {id2} is {f:?} while it is defined as {ns:?}"),
            }
            ensure!(s.lookup(id2) == s.as_symbols().lookup(id2), "symbol table gives a different name");
        }
        // names which are not there
        for _ in 0..4 {
            let (l, t) = (src.usize(0, w.libs.len() - 1), src.usize(0, w.libs.len() - 1));
            let n = &w.libs[t].types[src.usize(0, w.libs[t].types.len() - 1)].0;
            let lib = if src.bool() { w.libs[l].name.clone() } else { "Absent".into() };
            let n = if src.below(4) == 0 { format!("{}x", &n[..n.len().min(99)]) } else { n.clone() };
            if names.values().any(|x| x.contains(&(lib.clone(), n.clone()))) {
                continue;
            }
            ctx.class("absent name probed");
            let f = fqn(&lib, &n);
            ensure!(
                s.resolve(f.clone()).is_none() && s.get(f.clone()).is_none() && s.to_sem_id(f.clone()).is_none() && s.type_tree(f).is_none(),
                "{lib}.{n} is found though it is not defined"
            );
        }
        let mut b = *src.pick(&model.keys().copied().collect::<Vec<_>>());
        b[src.usize(0, 31)] ^= 1 << src.below(8);
        if !model.contains_key(&b) {
            let i = semid(b);
            ensure!(s.get(i).is_none() && s.lookup(i).is_none() && s.type_tree(i).is_none() && s.as_types().get(i).is_none(), "unknown id is found");
        }
        // the symbol table lists exactly the imported libraries and names
        let text = s.as_symbols().to_string();
        let listed = text.lines().filter(|l| l.contains(" => ")).count();
        ensure!(listed == names.values().map(|x| x.len()).sum::<usize>(), "symbol table lists {listed} names");
        let deps = text.lines().filter(|l| l.contains(" as ")).count();
        ensure!(deps == w.libs.len(), "symbol table lists {deps} libraries");
        for (id, ns) in &names {
            for (l, n) in ns {
                let line = format!("  {l}.{n} => {}", semid(*id));
                ensure!(text.lines().any(|x| x == line), "symbol table misses `{line}`");
            }
        }
        let text = s.to_string();
        ensure!(text.lines().filter(|l| l.starts_with("data ")).count() == model.len(), "listing of the system doesn't have a line per type");
    }
    Ok(())
}

// ------------------------------------------------------------------ C17 extraction

static C17: Prop = Prop {
    id: "C17",
    rule: "random complete and incomplete systems, random root sets (unknown ids included), extraction compared with a graph search over the model, \
           union of extractions compared with set union; non-trivial: the result is a proper part of the system, or is refused",
    subs: &[Sub { name: "extract", quick: 20_000, thorough: 400_000, run: c17 }],
    known: &[],
    assumptions: &[],
};

fn closure(w: &World, ids: &Ids, sys: &BTreeMap<Id, MTy>, roots: &[Id]) -> (BTreeSet<Id>, BTreeSet<Id>) {
    let (mut seen, mut missing) = (BTreeSet::new(), BTreeSet::new());
    let mut todo = roots.to_vec();
    while let Some(i) = todo.pop() {
        if seen.contains(&i) || missing.contains(&i) {
            continue;
        }
        match sys.get(&i) {
            Some(t) => {
                seen.insert(i);
                todo.extend(t.refs().into_iter().map(|r| w.ref_id(ids, r)));
            }
            None => {
                missing.insert(i);
            }
        }
    }
    (seen, missing)
}

fn part(sys: &BTreeMap<Id, MTy>, ids: &BTreeSet<Id>) -> BTreeMap<Id, MTy> {
    sys.iter().filter(|(i, _)| ids.contains(*i)).map(|(i, t)| (*i, t.clone())).collect()
}

fn load_sys(w: &World, ids: &Ids, m: &BTreeMap<Id, MTy>) -> Result<TypeSystem, Fail> {
    match de::<TypeSystem>(&w.enc_system(ids, m)) {
        Ok((s, _)) => Ok(s),
        Err(e) => fail!("valid binary type system rejected: {e}"),
    }
}

fn c17(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = shared_world(src, ctx, &LIB_GEN);
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let mut model = w.system(&ids, &all);
    let keys: Vec<Id> = model.keys().copied().collect();
    let incomplete = src.chance(1, 4);
    if incomplete {
        for _ in 0..src.range(1, 3) {
            model.remove(src.pick(&keys));
        }
    }
    let sys = load_sys(&w, &ids, &model)?;
    let mut picks: Vec<(Vec<Id>, Option<TypeSystem>)> = vec![];
    let mut desc = String::new();
    for _ in 0..2 {
        let mut roots: Vec<Id> = (0..src.below(4)).map(|_| *src.pick(&keys)).collect();
        if src.chance(1, 8) {
            let mut x = *src.pick(&keys);
            x[src.usize(0, 31)] ^= 1 << src.below(8);
            roots.push(x);
        }
        let (seen, missing) = closure(&w, &ids, &model, &roots);
        desc += &format!(" roots {} -> {} of {}, {} missing", roots.len(), seen.len(), model.len(), missing.len());
        ctx.class_if("proper part", seen.len() < model.len() && !seen.is_empty());
        ctx.class_if("no roots", roots.is_empty());
        ctx.class_if("missing type", !missing.is_empty());
        ctx.nontrivial |= !missing.is_empty() || (seen.len() < model.len() && seen.len() > 1);
        let got = sys.extract(roots.iter().map(|r| semid(*r)));
        match got {
            Ok(p) => {
                ensure!(missing.is_empty(), "extraction succeeds though {} types are absent", missing.len());
                ensure!(
                    types_of(&p) == model_types(&w, &ids, &part(&model, &seen)),
                    "extraction has {} types instead of the {} reachable ones",
                    p.count_types(),
                    seen.len()
                );
                ensure!(p.count_types().into_usize() == seen.len(), "number of types is wrong");
                match p.extract(roots.iter().map(|r| semid(*r))) {
                    Ok(p2) => ensure!(p2 == p, "repeated extraction changes the result"),
                    Err(e) => fail!("extraction is incomplete: {e}"),
                }
                picks.push((roots, Some(p)));
            }
            Err(e) => {
                ensure!(!missing.is_empty(), "extraction of known types fails: {e}");
                let t = e.to_string();
                ensure!(missing.iter().any(|m| t.contains(&semid(*m).to_string())), "reported `{t}` is not about an absent type");
                picks.push((roots, None));
            }
        }
    }
    let d = format!("{}{desc}", w.describe());
    ctx.fingerprint(d.as_bytes());
    ctx.sample(|| d);
    if let (Some(a), Some(b)) = (&picks[0].1, &picks[1].1) {
        let mut u = a.clone();
        if let Err(e) = u.extend(b.clone()) {
            fail!("union fails: {e}");
        }
        let mut v = b.clone();
        v.extend(a.clone()).map_err(|e| Fail { msg: format!("union fails: {e}") })?;
        ensure!(u == v, "union depends on the order");
        let mut both = picks[0].0.clone();
        both.extend(&picks[1].0);
        match sys.extract(both.into_iter().map(semid)) {
            Ok(x) => ensure!(x == u, "extraction of all roots differs from the union of extractions"),
            Err(e) => fail!("extraction of all roots fails: {e}"),
        }
        let before = u.clone();
        u.extend(a.clone()).map_err(|e| Fail { msg: format!("union fails: {e}") })?;
        ensure!(u == before, "adding present types changes the system");
        ensure!(u.id() == before.id(), "id changes");
    }
    Ok(())
}

// ------------------------------------------------------------------ C18 identity

static C18: Prop = Prop {
    id: "C18",
    rule: "random systems; the id is recomputed from the set of type ids and compared across routes (import, decoding, extraction, union, \
           armor) and after taking a type out; non-trivial: more than two types",
    subs: &[
        Sub { name: "identity", quick: 20_000, thorough: 400_000, run: c18 },
        Sub { name: "large", quick: 24, thorough: 500, run: c18_large },
    ],
    known: &[],
    assumptions: &["SHA-256 has no accidental collision among generated inputs"],
};

fn c18(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = shared_world(src, ctx, &LIB_GEN);
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let model = w.system(&ids, &all);
    let expect = World::sys_id(&model);
    let sys = match import(all.iter().map(|l| w.type_lib(&ids, *l)))? {
        Ok(s) => s,
        Err(e) => fail!("complete set of libraries refused: {e:?}"),
    };
    ensure!(sys.id().to_byte_array() == expect, "id of the imported system isn't the commitment to its type ids");
    ensure!(sys.as_types().id().to_byte_array() == expect, "id of the bare system differs");
    ensure!(sys.clone().into_type_system().id().to_byte_array() == expect, "id of the bare system differs");
    let loaded = load_sys(&w, &ids, &model)?;
    ensure!(loaded.id().to_byte_array() == expect, "id of the decoded system differs");
    ensure!(&loaded == sys.as_types(), "decoded system differs");
    match loaded.extract(model.keys().map(|k| semid(*k))) {
        Ok(s) => ensure!(s.id().to_byte_array() == expect, "id after extraction differs"),
        Err(e) => fail!("extraction fails: {e}"),
    }
    // split in two and merged
    let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
    for (k, v) in &model {
        match src.below(3) {
            0 => {
                a.insert(*k, v.clone());
            }
            1 => {
                b.insert(*k, v.clone());
            }
            _ => {
                a.insert(*k, v.clone());
                b.insert(*k, v.clone());
            }
        }
    }
    let (mut sa, sb) = (load_sys(&w, &ids, &a)?, load_sys(&w, &ids, &b)?);
    ensure!(sa.id().to_byte_array() == World::sys_id(&a), "id of a part isn't the commitment to its type ids");
    ensure!((sa.id() == loaded.id()) == (a.len() == model.len()), "ids of different systems are equal");
    sa.extend(sb).map_err(|e| Fail { msg: format!("union fails: {e}") })?;
    ensure!(sa.id().to_byte_array() == expect && sa == loaded, "union of the parts is not the whole");
    let text = loaded.to_string();
    ensure!(text.contains(&loaded.id().to_string()), "text form doesn't carry the id");
    Ok(())
}

fn c18_large(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[254usize, 255, 256, 1023, 1024, 4094, 4095, 4096, 8191, 20_000, 65_534, 65_535, 65_536, 70_000]);
    let (w, k) = big_world(src, n);
    let ids = w.ids();
    let all: Vec<usize> = (0..k).collect();
    let mut model = w.system(&ids, &all);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{} types from {k} libraries", model.len()));
    let sys = load_sys(&w, &ids, &model)?;
    ensure!(sys.as_unconfined().len() == model.len(), "decoded system has {} types instead of {}", sys.as_unconfined().len(), model.len());
    ensure!(sys.id().to_byte_array() == World::sys_id(&model), "id of a system of {} types isn't the commitment to its type ids", model.len());
    let cut = *model.keys().nth(src.usize(0, model.len() - 1)).unwrap();
    if src.bool() || n == 70_000 {
        model.remove(&cut);
    } else {
        let t = model.remove(&cut).unwrap();
        let mut other = cut;
        other[src.usize(0, 31)] ^= 1 << src.below(8);
        model.insert(other, t);
    }
    let less = load_sys(&w, &ids, &model)?;
    ensure!(less.id() != sys.id() && less.id().to_byte_array() == World::sys_id(&model), "id of another system of {} types isn't the commitment to its type ids", model.len());
    Ok(())
}

// ------------------------------------------------------------------ C19 layouts

static C19: Prop = Prop {
    id: "C19",
    rule: "type trees of every named type of random systems rich in wrappers, options, strings and byte arrays, compared item by item with a recursive \
           reference, and then their tree expression node by node; non-trivial: the layout has more than two items",
    subs: &[
        Sub { name: "layout", quick: 12_000, thorough: 250_000, run: c19 },
        Sub { name: "wrappers", quick: 300, thorough: 3_000, run: c19_wrappers },
    ],
    known: &[("layout-wrappers", c19_known)],
    assumptions: &["layouts larger than 4000 items are skipped"],
};

/// Wrappers and options one in another, over a leaf; as many as a layout item has place for.
fn wrapped(src: &mut Src, n: usize) -> World {
    let inl = |t: MTy| Ref::Inline(Box::new(t));
    let mut w = World::default();
    w.libs.push(MLib { name: "Wraps".into(), types: vec![] });
    let g = Gen { huge: false, depth: 1, ..LIB_GEN };
    let leaf = match src.below(3) {
        0 => MTy::Prim(1),
        1 => MTy::Struct(vec![("a".into(), inl(MTy::Prim(1))), ("b".into(), inl(MTy::Unicode))]),
        _ => gen_ty(src, &w, 1, &g),
    };
    let mut types = vec![("Leaf".to_string(), leaf)];
    let options = src.below(3);
    for i in 0..n {
        let prev = Ref::Named(0, i);
        let t = if options > 0 && src.below(options + 1) > 0 {
            MTy::Union(vec![("none".into(), 0, inl(MTy::Prim(0))), ("some".into(), 1, prev)])
        } else {
            MTy::Tuple(vec![prev])
        };
        types.push((format!("W{i}"), t));
    }
    w.libs[0].types = types;
    w
}
fn c19_known() -> bool {
    let w = wrapped(&mut Src::random(1), 257);
    let ids = w.ids();
    let Ok(Ok(sys)) = import([w.type_lib(&ids, 0)]) else { return false };
    guarded(|| sys.type_tree(fqn("Wraps", "W256")).map(|t| t.iter().count())).is_err()
}
fn c19_wrappers(src: &mut Src, ctx: &mut Ctx) -> Res {
    // the leaf may be a wrapper too
    let n = *src.pick(&[2usize, 17, 64, 100, 127, 128, 129, 200, 253, 254]);
    let w = wrapped(src, n);
    ctx.class_if("over 128 wrappers", n > 128);
    // the deepest only, and one on the way
    let k = src.usize(1, n);
    c19_in(ctx, &w, |_, t| t == n || t == k)
}

/// Number of items of the layout, saturating.
pub fn layout_size(w: &World, t: &MTy, memo: &mut BTreeMap<*const MTy, u64>) -> u64 {
    let k = t as *const MTy;
    if let Some(n) = memo.get(&k) {
        return *n;
    }
    let n = 1 + t.refs().iter().map(|r| layout_size(w, w.resolve(r), memo)).fold(0u64, |a, b| a.saturating_add(b));
    memo.insert(k, n);
    n
}

fn is_char_enum(t: &MTy) -> bool { matches!(t, MTy::Enum(v) if v.iter().all(|x| (32..=127).contains(&x.1))) }
pub fn is_option(t: &MTy) -> bool {
    matches!(t, MTy::Union(v) if v.len() == 2 && {
        let mut v: Vec<_> = v.iter().collect();
        v.sort_by_key(|x| x.1);
        (v[0].0.as_str(), v[0].1, v[1].0.as_str(), v[1].1) == ("none", 0, "some", 1)
    })
}

struct Lay<'a> {
    w: &'a World,
    ids: &'a Ids,
    sys: &'a SymbolicSys,
    out: Vec<TypeInfo>,
    visual: BTreeMap<&'static str, u64>,
}

impl Lay<'_> {
    fn name(&self, r: &Ref) -> Option<TypeFqn> { self.sys.lookup(semid(self.w.ref_id(self.ids, r))).cloned() }

    fn walk(&mut self, r: &Ref, item: Option<ItemCase>, depth: u32, mut nested: Vec<NestedCase>) {
        let w = self.w;
        let t = w.resolve(r);
        let mut descend = true;
        match t {
            MTy::Tuple(v) if v.len() == 1 => {
                *self.visual.entry("newtype").or_default() += 1;
                nested.push(NestedCase::NewType(self.name(r)));
                return self.walk(&v[0], item, depth, nested);
            }
            t if is_option(t) => {
                *self.visual.entry("option").or_default() += 1;
                nested.push(NestedCase::Option);
                let MTy::Union(v) = t else { unreachable!() };
                let some = v.iter().find(|x| x.1 == 1).unwrap();
                return self.walk(&some.2, item, depth, nested);
            }
            MTy::Tuple(v) if v.len() == 2 => {
                if let MTy::List(c, a, b) = w.resolve(&v[1]) {
                    if is_char_enum(w.resolve(&v[0])) && is_char_enum(w.resolve(c)) {
                        *self.visual.entry("restricted string").or_default() += 1;
                        nested.push(NestedCase::RStr(self.name(&v[0]), self.name(c), Sizing::new(a.saturating_add(1), b.saturating_add(1))));
                        descend = false;
                    }
                }
            }
            MTy::List(c, ..) => {
                let case = match w.resolve(c) {
                    t if is_char_enum(t) => Some(NestedCase::AsciiStr(self.name(c))),
                    MTy::Prim(0x40 | 0x01) => Some(NestedCase::ByteStr),
                    MTy::Unicode => Some(NestedCase::UniStr),
                    _ => None,
                };
                if let Some(c) = case {
                    *self.visual.entry("string").or_default() += 1;
                    nested.push(c);
                    descend = false;
                }
            }
            MTy::Array(Ref::Inline(b), _) if matches!(**b, MTy::Prim(0x40 | 0x01)) => {
                *self.visual.entry("byte array").or_default() += 1;
                descend = false
            }
            _ => {}
        }
        self.out.push(TypeInfo {
            depth,
            ty: w.sys_ty(self.ids, t),
            fqn: self.name(r),
            item,
            nested: Confined::try_from(nested).unwrap(),
        });
        if !descend {
            return;
        }
        let d = depth + 1;
        match t {
            MTy::Prim(_) | MTy::Unicode | MTy::Enum(_) => {}
            MTy::Union(v) => {
                let mut v: Vec<_> = v.iter().collect();
                v.sort_by_key(|x| x.1);
                for (n, tag, r) in v {
                    self.walk(r, Some(ItemCase::UnionVariant(*tag, variant(n, *tag).name)), d, vec![]);
                }
            }
            MTy::Tuple(v) => {
                for (i, r) in v.iter().enumerate() {
                    self.walk(r, Some(ItemCase::UnnamedField(i as u8)), d, vec![]);
                }
            }
            MTy::Struct(v) => {
                for (i, (n, r)) in v.iter().enumerate() {
                    self.walk(r, Some(ItemCase::NamedField(i as u8, fieldname(n))), d, vec![]);
                }
            }
            MTy::Array(r, _) => self.walk(r, Some(ItemCase::ArrayItem), d, vec![]),
            MTy::List(r, ..) => self.walk(r, Some(ItemCase::ListItem), d, vec![]),
            MTy::Set(r, ..) => self.walk(r, Some(ItemCase::SetItem), d, vec![]),
            MTy::Map(k, v, ..) => {
                self.walk(k, Some(ItemCase::MapKey), d, vec![]);
                self.walk(v, Some(ItemCase::MapValue), d, vec![]);
            }
        }
    }
}

/// Checks a node of the tree expression against the layout item it stands for.
fn node(v: &TypeVesper, i: &TypeInfo) -> Res {
    let name = i.fqn.as_ref().map(|f| f.name.to_string());
    let subject = match (&i.item, &name) {
        (Some(ItemCase::NamedField(_, n)), _) => n.to_string(),
        (Some(ItemCase::UnionVariant(_, n)), _) => n.to_string(),
        (Some(ItemCase::UnnamedField(p)), None) => format!("_{p}"),
        (Some(ItemCase::MapKey), _) => "key".into(),
        (Some(ItemCase::MapValue), _) => "value".into(),
        (Some(ItemCase::ListItem | ItemCase::SetItem), None) => "element".into(),
        (_, Some(n)) => n.clone(),
        (_, None) => "_".into(),
    };
    // a type named `_` can't be told from an unnamed one in this notation
    if name.as_deref() != Some("_") {
        ensure!(v.subject.to_string() == subject, "subject is `{}` instead of `{subject}`", v.subject);
        let named_member =
            matches!(i.item, Some(ItemCase::NamedField(..) | ItemCase::UnionVariant(..) | ItemCase::MapKey | ItemCase::MapValue)) && name.is_some();
        let has = v.attributes.iter().any(|a| matches!(a, Attr::TypeName(n) if Some(n.to_string()) == name));
        ensure!(!named_member || has, "name {name:?} of the type of `{subject}` is lost");
    }
    let mut pred = match &i.ty {
        Ty::Primitive(_) => Pred::Is,
        Ty::UnicodeChar => Pred::Str,
        Ty::Enum(v) if v.iter().all(|v| (32..=127).contains(&v.tag)) => Pred::Char,
        Ty::Enum(_) => Pred::Enum,
        Ty::Union(_) => Pred::Union,
        Ty::Tuple(_) => Pred::Tuple,
        Ty::Struct(_) => Pred::Rec,
        Ty::Array(t, _) if [semid(World::sem_id(&[], None, &MTy::Prim(1))), semid(World::sem_id(&[], None, &MTy::Prim(0x40)))].contains(t) => Pred::Bytes,
        Ty::Array(..) => Pred::Array,
        Ty::List(..) => Pred::List,
        Ty::Set(..) => Pred::Set,
        Ty::Map(..) => Pred::Map,
    };
    let mut lens: Vec<String> = vec![];
    let mut want: Vec<String> = vec![];
    let len = |s: &Sizing| {
        let max = match s.max {
            0xFF => "MAX8".to_string(),
            0xFFFF => "MAX16".into(),
            0xFF_FFFF => "MAX24".into(),
            0xFFFF_FFFF => "MAX32".into(),
            u64::MAX => "MAX64".into(),
            x => x.to_string(),
        };
        format!("{}..{max}", s.min)
    };
    match &i.ty {
        Ty::Array(_, n) => lens.push(n.to_string()),
        Ty::List(_, s) | Ty::Set(_, s) | Ty::Map(_, _, s) => lens.push(len(s)),
        Ty::Enum(v) => want.extend(v.iter().map(|v| format!("enum {} {}", v.name, v.tag))),
        Ty::Primitive(p) => {
            let n = if p.into_code() == 0 { "Unit".to_string() } else { p.to_string() };
            ensure!(v.attributes.iter().any(|a| matches!(a, Attr::TypeName(x) if x.to_string() == n)), "primitive `{n}` is not named");
        }
        _ => {}
    }
    for n in i.nested.iter() {
        match n {
            NestedCase::ByteStr => pred = Pred::Bytes,
            NestedCase::UniStr => pred = Pred::Str,
            NestedCase::AsciiStr(n) => {
                pred = Pred::Ascii;
                want.extend(n.iter().map(|n| format!("charset {}", n.name)));
            }
            NestedCase::RStr(a, b, s) => {
                pred = Pred::Ascii;
                want.extend(a.iter().map(|n| format!("first {}", n.name)));
                want.extend(b.iter().map(|n| format!("rest {}", n.name)));
                lens.push(len(s));
            }
            NestedCase::NewType(n) => want.push(format!("wrapped {:?}", n.as_ref().map(|n| n.name.to_string()))),
            NestedCase::Option => want.push("option".into()),
        }
    }
    if let Some(ItemCase::UnionVariant(t, _)) = i.item {
        want.push(format!("tag {t}"));
    }
    ensure!(v.predicate == pred, "predicate of `{subject}` is `{}` instead of `{pred}`", v.predicate);
    let mut got: Vec<String> = vec![];
    let mut got_lens = vec![];
    for a in v.attributes.iter() {
        match a {
            Attr::TypeName(_) => {}
            Attr::Wrapped(n) => got.push(format!("wrapped {:?}", n.as_ref().map(|n| n.to_string()))),
            Attr::Option => got.push("option".into()),
            Attr::Tag(t) => got.push(format!("tag {t}")),
            Attr::AsciiEnum(n) => got.push(format!("charset {n}")),
            Attr::AsciiFirst(n) => got.push(format!("first {n}")),
            Attr::AsciiRest(n) => got.push(format!("rest {n}")),
            Attr::EnumVariant(t, n) => got.push(format!("enum {n} {t}")),
            Attr::Len(n) => got_lens.push(n.to_string()),
            Attr::LenRange(r) => got_lens.push(r.to_string()),
        }
    }
    got.sort();
    want.sort();
    ensure!(got == want, "attributes of `{subject}` are {got:?} instead of {want:?}");
    ensure!(got_lens == lens, "lengths of `{subject}` are {got_lens:?} instead of {lens:?}");
    // text of the node itself
    let mut alone = v.clone();
    alone.content = Default::default();
    alone.comment = None;
    let text = alone.display().to_string();
    let mut got: Vec<&str> = text.split([',', '\n', '{', '}']).map(str::trim).filter(|s| !s.is_empty()).collect();
    let head = if got.is_empty() { "" } else { got.remove(0) };
    let pred = match v.predicate {
        Pred::Is => "is",
        Pred::Tuple => "tuple",
        Pred::Rec => "rec",
        Pred::Enum => "enum",
        Pred::Union => "union",
        Pred::Char => "char",
        Pred::Str => "str",
        Pred::Ascii => "ascii",
        Pred::Bytes => "bytes",
        Pred::Array => "array",
        Pred::List => "list",
        Pred::Set => "set",
        Pred::Map => "map",
    };
    ensure!(head == format!("{pred} {}", v.subject), "node `{subject}` is displayed as `{text}`");
    let mut want: Vec<String> = v
        .attributes
        .iter()
        .map(|a| match a {
            Attr::TypeName(n) => n.to_string(),
            Attr::Wrapped(Some(n)) => format!("aka {n}"),
            Attr::Wrapped(None) => "wrapped".into(),
            Attr::Option => "option".into(),
            Attr::Tag(t) => format!("tag {t}"),
            Attr::AsciiEnum(n) => format!("charset {n}"),
            Attr::AsciiFirst(n) => format!("first {n}"),
            Attr::AsciiRest(n) => format!("rest {n}"),
            Attr::EnumVariant(t, n) => format!("{n} {t}"),
            Attr::Len(n) => format!("len {n}"),
            Attr::LenRange(r) => format!("len {r}"),
        })
        .collect();
    got.sort_unstable();
    want.sort();
    ensure!(got == want, "node `{subject}` is displayed as `{text}`, its attributes are {want:?}");
    Ok(())
}

fn tree<'a>(v: &TypeVesper, depth: u32, items: &mut std::slice::Iter<'a, TypeInfo>) -> Res {
    let Some(i) = items.next() else { fail!("tree expression has more nodes than the layout has items") };
    ensure!(i.depth == depth, "node `{}` is at depth {depth} while its item is at {}", v.subject, i.depth);
    node(v, i)?;
    for c in v.content.iter() {
        tree(c, depth + 1, items)?;
    }
    Ok(())
}

/// A type out of those layouts treat in a special way.
fn special(src: &mut Src, w: &World, depth: usize, g: &Gen) -> MTy {
    let here = w.libs.last().unwrap();
    let l = w.libs.len() - 1;
    let any = |src: &mut Src| -> Ref {
        if !here.types.is_empty() && src.below(3) > 0 {
            Ref::Named(l, src.usize(0, here.types.len() - 1))
        } else {
            Ref::Inline(Box::new(gen_ty(src, w, depth.min(1), g)))
        }
    };
    let chars = |src: &mut Src| -> Ref {
        let named: Vec<usize> = (0..here.types.len()).filter(|i| is_char_enum(&here.types[*i].1)).collect();
        if !named.is_empty() && src.bool() {
            return Ref::Named(l, *src.pick(&named));
        }
        let a = src.range(30, 34) as u8;
        let n = src.range(1, 3) as u8;
        let a = if src.below(4) == 0 { 126 - src.below(2) as u8 } else { a };
        Ref::Inline(Box::new(MTy::Enum((a..=a + n).map(|c| (format!("c{c}"), c)).collect())))
    };
    match src.below(8) {
        0 => MTy::Tuple(vec![any(src)]),
        1 => MTy::Union(vec![("none".into(), 0, Ref::Inline(Box::new(MTy::Prim(0)))), ("some".into(), 1, any(src))]),
        2 => {
            let (a, b) = sizing(src);
            let first = chars(src);
            if src.below(3) == 0 {
                let (rest, other) = (chars(src), any(src));
                return near_rstring(src, first, rest, other, (a, b));
            }
            MTy::Tuple(vec![first, Ref::Inline(Box::new(MTy::List(chars(src), a, b)))])
        }
        3 => {
            let (a, b) = sizing(src);
            MTy::List(chars(src), a, b)
        }
        4 => {
            let (a, b) = sizing(src);
            MTy::List(Ref::Inline(Box::new(if src.bool() { MTy::Unicode } else { MTy::Prim(*src.pick(&[0x40, 1, 2])) })), a, b)
        }
        5 => MTy::Array(Ref::Inline(Box::new(MTy::Prim(*src.pick(&[0x40, 1, 2])))), src.below(300) as u16),
        6 => match chars(src) {
            Ref::Inline(t) => *t,
            _ => MTy::Tuple(vec![any(src)]),
        },
        _ => {
            // near misses of an option
            let (n0, t0, n1, t1) = *src.pick(&[("none", 1, "some", 2), ("some", 0, "none", 1), ("none", 0, "some", 2), ("non", 0, "some", 1)]);
            MTy::Union(vec![(n0.into(), t0, Ref::Inline(Box::new(MTy::Prim(0)))), (n1.into(), t1, any(src))])
        }
    }
}

pub fn special_world(src: &mut Src, g: &Gen) -> World {
    if src.below(150) == 0 {
        return gen_crowd(src, g);
    }
    let mut w = World::default();
    let mut names = BTreeSet::new();
    for _ in 0..src.usize(1, g.max_libs) {
        let base = type_name(src, g);
        let base = if base == "_" { "Lib".into() } else { base };
        w.libs.push(MLib { name: uniq(&mut names, base), types: vec![] });
        let mut used = BTreeSet::new();
        for _ in 0..src.usize(1, g.max_types) {
            let n = type_name(src, g);
            let n = uniq(&mut used, n);
            let t = if src.below(5) < 3 { special(src, &w, g.depth, g) } else { gen_ty(src, &w, g.depth, g) };
            let l = w.libs.len() - 1;
            w.libs[l].types.push((n, t));
        }
    }
    unambiguous(w)
}

fn c19(src: &mut Src, ctx: &mut Ctx) -> Res {
    let w = special_world(src, &Gen { max_libs: 2, max_types: 9, max_fields: 4, depth: 3, ..LIB_GEN });
    c19_in(ctx, &w, |_, _| true)
}
fn c19_in(ctx: &mut Ctx, w: &World, chosen: impl Fn(usize, usize) -> bool) -> Res {
    let ids = w.ids();
    note_world(ctx, w);
    ctx.nontrivial = false;
    let all: Vec<usize> = (0..w.libs.len()).collect();
    let sys = match import(all.iter().map(|l| w.type_lib(&ids, *l)))? {
        Ok(s) => s,
        Err(e) => fail!("complete set of libraries refused: {e:?}"),
    };
    let mut memo = BTreeMap::new();
    for (l, lib) in w.libs.iter().enumerate() {
        for (t, (n, ty)) in lib.types.iter().enumerate() {
            if !chosen(l, t) {
                continue;
            }
            if layout_size(w, ty, &mut memo) > 4000 {
                ctx.class("skipped, too large");
                continue;
            }
            let r = Ref::Named(l, t);
            let mut lay = Lay { w, ids: &ids, sys: &sys, out: vec![], visual: BTreeMap::new() };
            lay.walk(&r, None, 0, vec![]);
            for (k, n) in lay.visual {
                *ctx.classes.entry(k.to_string()).or_default() += n;
            }
            ctx.inner += 1;
            let want = lay.out;
            ctx.nontrivial |= want.len() > 2;
            let Some(tt) = sys.type_tree(fqn(&lib.name, n)) else { fail!("no type tree for {}.{n}", lib.name) };
            let got: Vec<TypeInfo> = tt.iter().collect();
            if got != want {
                let p = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                fail!(
                    "type tree of {}.{n} has {} items instead of {}; item {p} is {:?} instead of {:?}",
                    lib.name,
                    got.len(),
                    want.len(),
                    got.get(p),
                    want.get(p)
                );
            }
            let layout = tt.to_layout();
            let items: Vec<TypeInfo> = {
                // the layout is opaque, read its items through the binary form
                let mut w2 = W::default();
                w2.0.extend((want.len() as u32).to_le_bytes());
                for i in &want {
                    w2.0.extend(ser(i));
                }
                ensure!(ser(&layout) == w2.0, "memory layout differs from the items of the type tree");
                want
            };
            let v = layout.to_vesper();
            let mut it = items.iter();
            tree(&v, 0, &mut it).map_err(|f| Fail { msg: format!("{}.{n}: {}", lib.name, f.msg) })?;
            ensure!(it.next().is_none(), "tree expression has less nodes than the layout has items");
            let text = layout.to_string();
            ensure!(text == tt.to_string(), "text of the type tree and of the layout differ");
            ensure!(text == v.display().to_string(), "text of the layout and of its tree expression differ");
        }
    }
    Ok(())
}

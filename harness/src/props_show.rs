//! Text of type definitions, libraries and systems.

use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

use amplify::ByteArray;
use strict_encoding::Sizing;
use strict_types::{SemId, TypeLibId, TypeSysId};

use crate::engine::*;
use crate::model::*;
use crate::props_lib::{import_all, note_world, symbolic, transpile_ref};
use crate::props_sys::{is_option, shared_world, special_world};

pub const PROPS: &[&Prop] = &[&C30];

pub static C30: Prop = Prop {
    id: "C30",
    rule: "random worlds printed as definitions (compiled, symbolic and resolved), libraries, symbolic libraries, type systems and symbol tables; the words of the text, \
           spaces, line breaks and parentheses aside, are compared with the words of the model; non-trivial: a type with inline members",
    subs: &[Sub { name: "text", quick: 4_000, thorough: 150_000, run: c30 }],
    known: &[],
    assumptions: &[],
};

/// Expected word of a text.
#[derive(Clone, Debug)]
enum Exp {
    Word(String),
    Id(Id),
    Extern(Id, Id),
    Symbol(String, Id),
}

const PUNCT: &[char] = &['[', ']', '{', '}', ',', '|', '?'];
fn words(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut w = String::new();
    for c in s.chars() {
        if c.is_whitespace() || c == '(' || c == ')' || PUNCT.contains(&c) {
            if !w.is_empty() {
                out.push(std::mem::take(&mut w));
            }
            if PUNCT.contains(&c) {
                out.push(c.to_string());
            }
        } else {
            w.push(c);
        }
    }
    if !w.is_empty() {
        out.push(w);
    }
    out
}
fn same(w: &str, e: &Exp) -> bool {
    match e {
        Exp::Word(x) => w == x,
        Exp::Id(i) => SemId::from_str(w).ok() == Some(semid(*i)),
        // the alternate text has the id as well
        Exp::Symbol(n, i) => {
            w == n || w.strip_prefix(n.as_str()).and_then(|x| x.strip_prefix('#')).map(|x| SemId::from_str(x).ok() == Some(semid(*i))).unwrap_or(false)
        }
        Exp::Extern(l, i) => w
            .split_once('.')
            .map(|(a, b)| TypeLibId::from_str(a).ok() == Some(libid(*l)) && SemId::from_str(b).ok() == Some(semid(*i)))
            .unwrap_or(false),
    }
}
fn word(out: &mut Vec<Exp>, s: &str) { out.extend(words(s).into_iter().map(Exp::Word)) }

fn expect(t: &MTy, r: &dyn Fn(&Ref, &mut Vec<Exp>), out: &mut Vec<Exp>) {
    let size = |a: u64, b: u64| Sizing::new(a, b).to_string();
    match t {
        MTy::Prim(c) => word(out, &prim(*c).to_string()),
        MTy::Unicode => word(out, "Unicode"),
        MTy::Enum(_) | MTy::Union(_) => {
            let mut v: Vec<(&String, u8, Option<&Ref>)> = match t {
                MTy::Enum(v) => v.iter().map(|x| (&x.0, x.1, None)).collect(),
                MTy::Union(v) => v.iter().map(|x| (&x.0, x.1, Some(&x.2))).collect(),
                _ => unreachable!(),
            };
            v.sort_by_key(|x| x.1);
            if is_option(t) {
                r(v[1].2.unwrap(), out);
                return word(out, "?");
            }
            let mut next = 0;
            for (i, (n, tag, x)) in v.iter().enumerate() {
                if i > 0 {
                    word(out, "|");
                }
                let tagged = if *tag as u32 == next { n.to_string() } else { format!("{n}#{tag}") };
                word(out, &tagged);
                next = *tag as u32 + 1;
                if let Some(x) = x {
                    r(x, out);
                }
            }
            if v.len() == 1 {
                word(out, "||");
            }
        }
        MTy::Struct(v) => {
            for (i, (n, x)) in v.iter().enumerate() {
                if i > 0 {
                    word(out, ",");
                }
                word(out, n);
                r(x, out);
            }
        }
        MTy::Tuple(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    word(out, ",");
                }
                r(x, out);
            }
        }
        MTy::Array(x, n) => {
            word(out, "[");
            r(x, out);
            word(out, &format!("^ {n}]"));
        }
        MTy::List(x, a, b) => {
            word(out, "[");
            r(x, out);
            word(out, &format!("{}]", size(*a, *b)));
        }
        MTy::Set(x, a, b) => {
            word(out, "{");
            r(x, out);
            word(out, &format!("{}}}", size(*a, *b)));
        }
        MTy::Map(k, x, a, b) => {
            word(out, "{");
            r(k, out);
            word(out, "->");
            word(out, &size(*a, *b));
            r(x, out);
            word(out, "}");
        }
    }
}
/// References as they are in a compiled library.
fn compiled(w: &World, ids: &Ids, me: usize, r: &Ref, out: &mut Vec<Exp>) {
    match r {
        Ref::Inline(t) => expect(t, &|r, o| compiled(w, ids, me, r, o), out),
        Ref::Named(l, t) if *l == me => out.push(Exp::Id(ids.types[*l][*t])),
        Ref::Named(l, t) => out.push(Exp::Extern(ids.libs[*l], ids.types[*l][*t])),
    }
}
/// References as they are in a symbolic library.
fn named(w: &World, ids: &Ids, me: usize, r: &Ref, out: &mut Vec<Exp>) {
    match r {
        Ref::Inline(t) => expect(t, &|r, o| named(w, ids, me, r, o), out),
        Ref::Named(l, t) if *l == me => word(out, &w.libs[*l].types[*t].0),
        Ref::Named(l, t) => out.push(Exp::Symbol(format!("{}.{}", w.libs[*l].name, w.libs[*l].types[*t].0), ids.types[*l][*t])),
    }
}
fn compare(what: &str, text: &str, want: &[Exp]) -> Res {
    let got = words(text);
    for i in 0..got.len().max(want.len()) {
        match (got.get(i), want.get(i)) {
            (Some(a), Some(b)) if same(a, b) => {}
            (a, b) => fail!("text of {what} has {a:?} in place of {b:?} (word {i} of {want:?}):\n{}", text.chars().take(600).collect::<String>()),
        }
    }
    Ok(())
}

/// A definition within a text: the line before it, the name, the text of the type.
struct Def<'a> {
    before: &'a str,
    name: &'a str,
    text: String,
}
/// Splits a text into the lines before definitions and the definitions.
fn parse(text: &str) -> Result<(Vec<&str>, Vec<Def<'_>>), Fail> {
    let (mut head, mut defs): (Vec<&str>, Vec<Def>) = (vec![], vec![]);
    let mut before = "";
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("data ") {
            let Some((n, t)) = rest.split_once(": ") else { fail!("definition without a type: {line}") };
            defs.push(Def { before, name: n.trim(), text: t.to_string() });
        } else if !defs.is_empty() && !line.starts_with('@') && !line.starts_with("-- ") {
            let d = defs.last_mut().unwrap();
            d.text.push('\n');
            d.text.push_str(line);
        } else if defs.is_empty() && !line.starts_with('@') && !(line.starts_with("-- ") && line != "-- no dependencies") && !line.trim().is_empty() {
            head.push(line);
        }
        before = line;
    }
    Ok((head, defs))
}

fn c30(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = match src.below(3) {
        0 => {
            let w = special_world(src, &LIB_GEN);
            let ids = w.ids();
            note_world(ctx, &w);
            (w, ids)
        }
        _ => shared_world(src, ctx, &LIB_GEN),
    };
    let all: Vec<usize> = (0..w.libs.len()).collect();
    for l in 0..w.libs.len() {
        let lib = w.type_lib(&ids, l);
        let sym = symbolic(&w, &ids, l)?;
        // single definitions
        for (n, t) in &w.libs[l].types {
            let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
            expect(t, &|r, o| compiled(&w, &ids, l, r, o), &mut a);
            expect(t, &|r, o| named(&w, &ids, l, r, o), &mut b);
            expect(t, &|r, o| o.push(Exp::Id(w.ref_id(&ids, r))), &mut c);
            compare(n, &t.to_ty(&|r| w.lib_ref(&ids, l, r)).to_string(), &a)?;
            compare(n, &t.to_ty(&|r| transpile_ref(&w, &ids, l, r)).to_string(), &b)?;
            let ty = w.sys_ty(&ids, t);
            let text = match src.below(4) {
                0 => format!("{ty}"),
                1 => format!("{ty:-}"),
                2 => format!("{ty:+}"),
                _ => format!("{ty:#}"),
            };
            compare(n, &text, &c)?;
        }
        // the compiled library
        let text = lib.to_string();
        let (head, defs) = parse(&text)?;
        let name = &w.libs[l].name;
        let id = head.first().and_then(|h| h.strip_prefix(&format!("typelib {name} -- "))).map(TypeLibId::from_str);
        ensure!(matches!(id, Some(Ok(i)) if i == libid(ids.libs[l])), "text of library {name} starts with {:?}", head.first());
        imports(&w, &ids, l, &head[1..], false)?;
        ensure!(defs.len() == w.libs[l].types.len(), "text of library {name} has {} definitions of {}", defs.len(), w.libs[l].types.len());
        listing(&w, l, &defs, &|r, o| compiled(&w, &ids, l, r, o), |_, _| Ok(()))?;
        // the symbolic one
        let alt = src.bool();
        let text = if alt { format!("{sym:#}") } else { sym.to_string() };
        let (head, defs) = parse(&text)?;
        let head: Vec<&str> = head.into_iter().filter(|x| *x != "@context").collect();
        ensure!(head.first() == Some(&format!("typelib {name}").as_str()), "text of symbolic library {name} starts with {:?}", head.first());
        imports(&w, &ids, l, &head[1..], true)?;
        ensure!(defs.len() == w.libs[l].types.len(), "text of library {name} has {} definitions of {}", defs.len(), w.libs[l].types.len());
        listing(&w, l, &defs, &|r, o| named(&w, &ids, l, r, o), |d, t| {
            let want = format!("@mnemonic({})", mnemonic(&ids.types[l][t]));
            ensure!(alt || d.before == want, "definition of {} follows `{}` instead of `{want}`", d.name, d.before);
            Ok(())
        })?;
    }
    // systems
    let mut order = all.clone();
    src.shuffle(&mut order);
    let sys = import_all(&w, &ids, &order)?;
    let model = w.system(&ids, &all);
    let text = sys.as_types().to_string();
    let (head, defs) = parse(&text)?;
    let id = head.first().and_then(|h| h.strip_prefix("typesys -- ")).map(TypeSysId::from_str);
    ensure!(matches!(id, Some(Ok(i)) if i == sys.as_types().id()), "text of a type system starts with {:?}", head.first());
    let mut seen = BTreeSet::new();
    for d in &defs {
        let Ok(id) = SemId::from_str(d.name) else { fail!("type system defines {}", d.name) };
        let Some(t) = model.get(&id.to_byte_array()) else { fail!("type system defines unknown {}", d.name) };
        ensure!(seen.insert(id), "type system defines {} twice", d.name);
        let mut e = vec![];
        expect(t, &|r, o| o.push(Exp::Id(w.ref_id(&ids, r))), &mut e);
        compare(d.name, &d.text, &e)?;
    }
    ensure!(seen.len() == model.len(), "type system lists {} types of {}", seen.len(), model.len());
    // with names
    let mut names: BTreeMap<Id, BTreeSet<String>> = BTreeMap::new();
    for (l, lib) in w.libs.iter().enumerate() {
        for (t, (n, _)) in lib.types.iter().enumerate() {
            names.entry(ids.types[l][t]).or_default().insert(format!("{}.{n}", lib.name));
        }
    }
    let text = sys.to_string();
    let (head, defs) = parse(&text)?;
    let id = head.first().and_then(|h| h.strip_prefix("typesys -- ")).map(TypeSysId::from_str);
    ensure!(matches!(id, Some(Ok(i)) if i == sys.as_types().id()), "text of a symbolic system starts with {:?}", head.first());
    let mut seen = BTreeSet::new();
    for d in &defs {
        let id = match names.iter().find(|x| x.1.contains(d.name)) {
            Some((id, _)) => {
                let before = d.before.strip_prefix("-- ").map(SemId::from_str);
                ensure!(matches!(before, Some(Ok(i)) if i == semid(*id)), "definition of {} follows `{}`", d.name, d.before);
                *id
            }
            None => match SemId::from_str(d.name) {
                Ok(i) if !names.contains_key(&i.to_byte_array()) => i.to_byte_array(),
                _ => fail!("symbolic system defines {}", d.name),
            },
        };
        let Some(t) = model.get(&id) else { fail!("symbolic system defines unknown {}", d.name) };
        ensure!(seen.insert(id), "symbolic system defines {} twice", d.name);
        let mut e = vec![];
        expect(
            t,
            &|r, o| {
                let id = w.ref_id(&ids, r);
                match sys.lookup(semid(id)) {
                    Some(f) if names.contains_key(&id) => word(o, &format!("{}.{}", f.lib, f.name)),
                    _ => o.push(Exp::Id(id)),
                }
            },
            &mut e,
        );
        compare(d.name, &d.text, &e)?;
    }
    ensure!(seen.len() == model.len(), "symbolic system lists {} types of {}", seen.len(), model.len());
    // symbols
    let text = sys.as_symbols().to_string();
    let mut libs: BTreeSet<String> = BTreeSet::new();
    let mut syms: BTreeMap<Id, BTreeSet<String>> = BTreeMap::new();
    for line in text.lines() {
        if let Some((d, n)) = line.split_once(" as ") {
            let Some(l) = w.libs.iter().position(|x| x.name == n) else { fail!("symbol table has library {n}") };
            ensure!(d == dependency(&w, &ids, l) && libs.insert(n.to_string()), "symbol table has library {n} as {d}");
        } else if let Some((n, id)) = line.split_once(" => ") {
            let Ok(id) = SemId::from_str(id) else { fail!("symbol table has `{line}`") };
            ensure!(syms.entry(id.to_byte_array()).or_default().insert(n.trim().to_string()), "symbol table has {n} twice");
        }
    }
    ensure!(libs.len() == w.libs.len(), "symbol table has {} libraries of {}", libs.len(), w.libs.len());
    ensure!(syms == names, "symbol table has other names: {syms:?} instead of {names:?}");
    Ok(())
}

fn mnemonic(id: &Id) -> String {
    use baid64::DisplayBaid64;
    semid(*id).to_baid64_mnemonic()
}
fn dependency(w: &World, ids: &Ids, l: usize) -> String {
    use baid64::DisplayBaid64;
    format!("{}#{}", w.libs[l].name, libid(ids.libs[l]).to_baid64_mnemonic())
}

fn imports(w: &World, ids: &Ids, l: usize, head: &[&str], uses: bool) -> Res {
    let mut got: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut last = None;
    for line in head {
        if let Some(d) = line.strip_prefix("import ") {
            ensure!(got.insert(d.to_string(), BTreeSet::new()).is_none(), "{d} is imported twice");
            last = Some(d.to_string());
        } else if let (Some(u), Some(d)) = (line.strip_prefix("  use "), &last) {
            ensure!(got.get_mut(d).unwrap().insert(u.to_string()), "{u} is used twice");
        } else {
            ensure!(*line == "-- no dependencies" && w.deps(l).is_empty(), "unexpected line `{line}`");
        }
    }
    let mut want: BTreeMap<String, BTreeSet<String>> = w.deps(l).into_iter().map(|d| (dependency(w, ids, d), BTreeSet::new())).collect();
    if uses {
        for (el, et) in w.externs(l) {
            want.get_mut(&dependency(w, ids, el)).unwrap().insert(format!("{}#{}", w.libs[el].types[et].0, mnemonic(&ids.types[el][et])));
        }
    }
    ensure!(got == want, "text imports {got:?} instead of {want:?}");
    Ok(())
}

fn listing(w: &World, l: usize, defs: &[Def], r: &dyn Fn(&Ref, &mut Vec<Exp>), more: impl Fn(&Def, usize) -> Res) -> Res {
    let mut seen = BTreeSet::new();
    for d in defs {
        let Some(t) = w.libs[l].types.iter().position(|x| x.0 == d.name) else { fail!("text of library {} defines {}", w.libs[l].name, d.name) };
        ensure!(seen.insert(t), "{} is defined twice", d.name);
        let mut e = vec![];
        expect(&w.libs[l].types[t].1, r, &mut e);
        compare(d.name, &d.text, &e)?;
        more(d, t)?;
    }
    Ok(())
}

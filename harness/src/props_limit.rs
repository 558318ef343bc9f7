//! Type systems of about the largest size they are documented to have.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::u24;
use strict_encoding::{StrictDeserialize, StrictSerialize};
use strict_types::ast::{Field, Ty};
use strict_types::typelib::LibRef;
use strict_types::{SymbolicSys, SystemBuilder, TypeLib, TypeSystem};

use crate::engine::*;
use crate::model::*;
use crate::util::*;

pub const PROPS: &[&Prop] = &[&C32];

const MAX: usize = 0xFF_FFFF;

pub static C32: Prop = Prop {
    id: "C32",
    rule: "libraries of structures with up to 255 fields, whose type system takes a chosen number of bytes around 2^24, are imported together, or into two systems which are then joined; \
           non-trivial: the number is within 1000 bytes from the limit",
    subs: &[Sub { name: "bytes", quick: 48, thorough: 1_000, run: c32_bytes }, Sub { name: "libs", quick: 8, thorough: 60, run: c32_libs }],
    known: &[],
    assumptions: &["the size of the strict encoding of a structure type is the sum of the sizes of its parts"],
};

const PRIMS: [fn() -> Ty<LibRef>; 5] = [|| Ty::U8, || Ty::U16, || Ty::U32, || Ty::U64, || Ty::UNIT];
/// What a primitive type takes in the system.
const PRIM: usize = 32 + 2;
const HEAD: usize = 3;

/// Lengths of the field names of each structure.
struct Plan {
    structs: Vec<Vec<usize>>,
    prims: usize,
    /// Bytes of the whole system
    size: usize,
}

fn struct_size(fields: &[usize]) -> usize { 32 + 2 + fields.iter().map(|l| 1 + l + 32).sum::<usize>() }

fn plan(src: &mut Src, target: usize) -> Plan {
    let prims = src.usize(1, PRIMS.len());
    let mut left = target - HEAD - prims * PRIM;
    let mut structs = vec![];
    let (least, most) = (struct_size(&[4; 3]), struct_size(&[100; 255]));
    // The last structure is adjusted for the rest to be exactly as wanted
    while left > 2 * most {
        let n = if src.chance(1, 6) { src.usize(1, 255) } else { 255 };
        let len = if src.chance(1, 6) { src.usize(4, 100) } else { 100 };
        structs.push(vec![len; n]);
        left -= struct_size(structs.last().unwrap());
    }
    for last in [false, true] {
        let part = if last { left } else { left / 2 };
        assert!((least..=most).contains(&part));
        let body = part - 34;
        let n = body.div_ceil(133);
        let names = body - n * 33;
        let f: Vec<usize> = (0..n).map(|i| names / n + usize::from(i < names % n)).collect();
        assert_eq!(struct_size(&f), part);
        structs.push(f);
        left -= part;
    }
    src.shuffle(&mut structs);
    Plan { structs, prims, size: target }
}

impl Plan {
    /// Libraries: structures are dealt in sequence.
    fn libs(&self, k: usize) -> Vec<TypeLib> {
        let per = self.structs.len().div_ceil(k);
        self.structs
            .chunks(per)
            .enumerate()
            .map(|(l, chunk)| {
                let types: BTreeMap<_, Ty<LibRef>> = chunk
                    .iter()
                    .enumerate()
                    .map(|(i, fields)| {
                        let no = l * per + i;
                        let fields = fields.iter().enumerate().map(|(j, len)| {
                            let name = format!("{:a<1$}", format!("f{j:03}"), len);
                            // all the primitives are used by every library
                            Field { name: fieldname(&name), ty: LibRef::Inline(cast(PRIMS[j % self.prims]())) }
                        });
                        (tyname(&format!("T{no}")), Ty::Struct(Confined::try_from(fields.collect::<Vec<_>>()).unwrap().into()))
                    })
                    .collect();
                TypeLib { name: liname(&format!("Lib{l}")), dependencies: Default::default(), extern_types: Default::default(), types: Confined::try_from(types).unwrap() }
            })
            .collect()
    }
}

fn cast<R: strict_types::TypeRef>(t: Ty<LibRef>) -> Ty<R> {
    match t {
        Ty::Primitive(p) => Ty::Primitive(p),
        _ => unreachable!(),
    }
}

fn build(libs: &[TypeLib]) -> Result<Result<SymbolicSys, String>, Fail> {
    match guarded(|| {
        let mut b = SystemBuilder::new();
        for l in libs {
            b = b.import(l.clone()).map_err(|e| format!("import: {e}"))?;
        }
        b.finalize().map_err(|e| e.iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; "))
    }) {
        Ok(r) => Ok(r),
        Err(p) => fail!("building a type system panics: {p}"),
    }
}

fn verify(src: &mut Src, sys: &TypeSystem, types: usize, size: usize) -> Res {
    ensure!(sys.count_types() == u24::try_from(types as u32).unwrap(), "{} types instead of {types}", sys.count_types());
    let bytes = match sys.to_strict_serialized::<MAX>() {
        Ok(b) => b,
        Err(e) => fail!("a type system of {size} bytes is accepted but is not serialized: {e}"),
    };
    ensure!(bytes.len() == size, "the type system takes {} bytes and not {size}", bytes.len());
    match TypeSystem::from_strict_serialized(bytes) {
        Ok(s) => ensure!(s == *sys, "serialization changes the type system of {size} bytes"),
        Err(e) => fail!("the type system of {size} bytes is not read back: {e}"),
    }
    if src.chance(1, 8) {
        use armor::AsciiArmor;
        let text = match guarded(|| sys.to_ascii_armored_string()) {
            Ok(t) => t,
            Err(p) => fail!("armoring of the type system of {size} bytes panics: {p}"),
        };
        match TypeSystem::from_ascii_armored_str(&text) {
            Ok(s) => ensure!(s == *sys, "armoring changes the type system of {size} bytes"),
            Err(e) => fail!("the armor of the type system of {size} bytes is not read back: {e}"),
        }
    }
    Ok(())
}

fn c32_bytes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let d = match src.below(4) {
        0 | 1 => src.range(0, 6) as i64 - 3,
        2 => src.range(0, 2000) as i64 - 1000,
        _ => *src.pick(&[-8_000_000i64, -1_000_000, -65_536, 40_000, 1_000_000, 3_000_000]),
    };
    ctx.nontrivial = d.abs() <= 1000;
    let size = (MAX as i64 + d) as usize;
    let over = size > MAX;
    let p = plan(src, size);
    assert_eq!(p.size, HEAD + p.prims * PRIM + p.structs.iter().map(|s| struct_size(s)).sum::<usize>());
    let full = p.structs.iter().all(|s| s.len() >= p.prims);
    // a primitive which nothing uses is not in the system
    if !full && p.structs.iter().all(|s| s.len() < p.prims) {
        return Ok(());
    }
    let types = p.structs.len() + p.prims;
    let k = src.usize(2, 9);
    let libs = p.libs(k);
    let join = src.bool();
    ctx.sample(|| format!("{} structures and {} primitives in {} libraries take 2^24-1{d:+} bytes{}", p.structs.len(), p.prims, libs.len(), if join { "; two systems are joined" } else { "" }));
    ctx.class(if over { "too large" } else { "fits" });
    ctx.class(if join { "joined" } else { "imported" });
    if !join {
        return match build(&libs)? {
            Ok(s) => {
                ensure!(!over, "a type system of {size} bytes is built, which is more than allowed");
                verify(src, s.as_types(), types, size)
            }
            Err(e) => {
                ensure!(over, "a type system of {size} bytes is refused: {e}");
                Ok(())
            }
        };
    }
    let cut = src.usize(1, libs.len() - 1);
    let (Ok(a), Ok(b)) = (build(&libs[..cut])?, build(&libs[cut..])?) else {
        // only possible when a part is larger than allowed
        ensure!(over, "a part of the type system of {size} bytes is refused");
        return Ok(());
    };
    let (a, b) = (a.as_types().clone(), b.as_types().clone());
    let mut joined = a.clone();
    let r = match guarded(|| {
        let r = joined.extend(b).map_err(|e| e.to_string());
        (joined, r)
    }) {
        Ok(r) => r,
        Err(e) => fail!("joining of type systems panics: {e}"),
    };
    match r {
        (joined, Ok(())) => {
            ensure!(!over, "a type system of {size} bytes is joined, which is more than allowed");
            verify(src, &joined, types, size)
        }
        (joined, Err(e)) => {
            ensure!(over, "joining into a type system of {size} bytes is refused: {e}");
            ensure!(joined == a, "the type system is changed by the refused join");
            Ok(())
        }
    }
}

/// As many libraries as a system may know.
fn c32_libs(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *src.pick(&[65_534usize, 65_535, 65_536, 65_537]);
    ctx.nontrivial = true;
    ctx.sample(|| format!("{n} libraries of one type each"));
    ctx.class(if n > 65_535 { "too many" } else { "fits" });
    let libs: Vec<TypeLib> = (0..n)
        .map(|i| {
            TypeLib {
                name: liname(&format!("Lib{i}")),
                dependencies: Default::default(),
                extern_types: Default::default(),
                types: Confined::try_from(BTreeMap::from([(tyname(&format!("T{i}")), Ty::<LibRef>::U8)])).unwrap(),
            }
        })
        .collect();
    match build(&libs)? {
        Ok(s) => {
            ensure!(n <= 65_535, "{n} libraries are accepted, while symbols may hold 65535 of them");
            let names: BTreeSet<String> = s.as_symbols().to_string().lines().filter_map(|l| l.split_once(" as ").map(|(_, n)| n.to_string())).collect();
            ensure!(names.len() == n, "the system of {n} libraries lists {} of them", names.len());
            let (back, _) = de::<SymbolicSys>(&ser(&s)).map_err(|e| Fail { msg: format!("the system of {n} libraries is not read back: {e}") })?;
            ensure!(back == s, "the system of {n} libraries is changed by its encoding");
        }
        Err(e) => ensure!(n > 65_535, "{n} libraries are refused: {e}"),
    }
    Ok(())
}

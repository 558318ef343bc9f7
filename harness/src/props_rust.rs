//! Rust types with derived strict encoding against their reflection, and the description of the
//! library's own types.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::OnceLock;

use amplify::ascii::AsciiString;
use amplify::confinement::Confined;
use amplify::num::{u24, u40, u48, u5, u56};
use strict_encoding::stl::{Alpha, AlphaCaps, AlphaNum, AlphaNumDash, AlphaSmall, Dec};
use strict_encoding::{
    FieldName, Ident, RString, StreamReader, StrictDecode, StrictDumb, StrictEncode, StrictReader, StrictSum, StrictType, TypeName, VariantName,
};
use strict_types::stl::{std_stl, std_sym, strict_types_stl, strict_types_sym, LIB_ID_STD, LIB_ID_STRICT_TYPES};
use strict_types::typelib::{LibBuilder, SymbolRef};
use strict_types::typesys::{TypeFqn, TypeSymbol};
use strict_types::value::{EnumTag, StrictNum};
use strict_types::{SemId, StrictVal, SymbolicSys, SystemBuilder, TypeLib};

use crate::engine::*;
use crate::model::*;
use crate::props_lib::{import_all, note_world, world};
use crate::props_sys::layout_size;
use crate::props_val::brief_val;
use crate::util::*;

pub const PROPS: &[&Prop] = &[&C20, &C34];

pub static C20: Prop = Prop {
    id: "C20",
    rule: "random values of 24 Rust types (numbers, enumerations and unions with all kinds of tags, named and anonymous tuples, structures, newtypes, options, boxes, \
arrays, lists, sets, maps, unicode, ASCII and restricted strings, types of the standard library), and corruptions of their encodings",
    subs: &[Sub { name: "values", quick: 200_000, thorough: 5_000_000, run: c20_values }, Sub { name: "bytes", quick: 200_000, thorough: 5_000_000, run: c20_bytes }],
    known: &[],
    assumptions: &["derived encodings of the strict_encoding crate are right"],
};

const LIB: &str = "RustTypes";

/// A Rust type with generated values.
trait Rust: StrictType + StrictEncode + StrictDecode + PartialEq + Debug {
    fn gen(src: &mut Src) -> Self;
    fn dumb() -> Self { Self::gen(&mut Src::replay(vec![])) }
    /// The value in the natural notation.
    fn val(&self) -> StrictVal;
}

fn uint(n: u64) -> StrictVal { StrictVal::Number(StrictNum::Uint(n)) }
fn edge(src: &mut Src) -> u64 {
    match src.below(4) {
        0 => src.below(3),
        1 => src.below(300),
        2 => u64::MAX >> src.below(64),
        _ => src.u64() >> src.below(64),
    }
}
macro_rules! num {
    ($($t:ty, $make:expr, $get:expr;)*) => { $(
        impl Rust for $t {
            fn gen(src: &mut Src) -> Self { let f: fn(u64) -> $t = $make; f(edge(src)) }
            fn val(&self) -> StrictVal { let f: fn(&$t) -> StrictVal = $get; f(self) }
        }
    )* };
}
num! {
    u8, |x| x as u8, |x| uint(*x as u64);
    u16, |x| x as u16, |x| uint(*x as u64);
    u32, |x| x as u32, |x| uint(*x as u64);
    u64, |x| x, |x| uint(*x);
    u24, |x| u24::with((x & 0xFFFFFF) as u32), |x| uint(x.into_u32() as u64);
    u40, |x| u40::with(x & 0xFF_FFFF_FFFF), |x| uint(x.into_u64());
    u48, |x| u48::with(x & 0xFFFF_FFFF_FFFF), |x| uint(x.into_u64());
    u56, |x| u56::with(x & 0xFF_FFFF_FFFF_FFFF), |x| uint(x.into_u64());
    i8, |x| x as i8, |x| StrictVal::Number(StrictNum::Int(*x as i64));
    i16, |x| x as i16, |x| StrictVal::Number(StrictNum::Int(*x as i64));
    i32, |x| x as i32, |x| StrictVal::Number(StrictNum::Int(*x as i64));
    i64, |x| x as i64, |x| StrictVal::Number(StrictNum::Int(*x));
    bool, |x| x & 1 == 1, |x| StrictVal::Enum(EnumTag::Ord(*x as u8));
    u5, |x| u5::with((x & 31) as u8), |x| StrictVal::Enum(EnumTag::Ord(x.to_u8()));
    (), |_| (), |_| StrictVal::Unit;
}
impl<T: Rust + Default> Rust for Box<T> {
    fn gen(src: &mut Src) -> Self { Box::new(T::gen(src)) }
    fn val(&self) -> StrictVal { (**self).val() }
}
impl<T: Rust + StrictDumb> Rust for Option<T> {
    fn gen(src: &mut Src) -> Self { src.bool().then(|| T::gen(src)) }
    fn val(&self) -> StrictVal {
        match self {
            None => StrictVal::Union(EnumTag::Name(vname("none")), Box::new(StrictVal::Unit)),
            Some(x) => StrictVal::Union(EnumTag::Name(vname("some")), Box::new(StrictVal::Tuple(vec![x.val()]))),
        }
    }
}
impl<A: Rust + Default, B: Rust + Default> Rust for (A, B) {
    fn gen(src: &mut Src) -> Self { (A::gen(src), B::gen(src)) }
    fn val(&self) -> StrictVal { StrictVal::Tuple(vec![self.0.val(), self.1.val()]) }
}
impl<A: Rust + Default, B: Rust + Default, C: Rust + Default> Rust for (A, B, C) {
    fn gen(src: &mut Src) -> Self { (A::gen(src), B::gen(src), C::gen(src)) }
    fn val(&self) -> StrictVal { StrictVal::Tuple(vec![self.0.val(), self.1.val(), self.2.val()]) }
}
impl<T: Rust + Copy + StrictDumb, const N: usize> Rust for [T; N] {
    fn gen(src: &mut Src) -> Self { std::array::from_fn(|_| T::gen(src)) }
    fn val(&self) -> StrictVal { StrictVal::List(self.iter().map(|x| x.val()).collect()) }
}
fn len(src: &mut Src, min: usize, max: usize) -> usize {
    match src.below(8) {
        0..=3 => src.usize(min, max.min(min + 3)),
        4 | 5 => src.usize(min, max.min(min + 20)),
        6 => min,
        _ => src.usize(min, max.min(min + 300)),
    }
}
impl<T: Rust + StrictDumb, const A: usize, const B: usize> Rust for Confined<Vec<T>, A, B> {
    fn gen(src: &mut Src) -> Self {
        let n = len(src, A, B);
        Confined::try_from((0..n).map(|_| T::gen(src)).collect::<Vec<_>>()).unwrap()
    }
    fn val(&self) -> StrictVal { StrictVal::List(self.iter().map(|x| x.val()).collect()) }
}
impl<T: Rust + Ord + StrictDumb, const A: usize, const B: usize> Rust for Confined<BTreeSet<T>, A, B> {
    fn gen(src: &mut Src) -> Self {
        let n = len(src, A, B);
        let mut s = BTreeSet::new();
        for _ in 0..n * 3 + 1000 {
            if s.len() >= n {
                break;
            }
            s.insert(T::gen(src));
        }
        Confined::try_from(s).unwrap_or_else(|_| panic!("too few items"))
    }
    fn val(&self) -> StrictVal { StrictVal::Set(self.iter().map(|x| x.val()).collect()) }
}
impl<K: Rust + Ord + std::hash::Hash + StrictDumb, T: Rust + StrictDumb, const A: usize, const B: usize> Rust for Confined<BTreeMap<K, T>, A, B> {
    fn gen(src: &mut Src) -> Self {
        let n = len(src, A, B);
        let mut s = BTreeMap::new();
        for _ in 0..n * 3 + 1000 {
            if s.len() >= n {
                break;
            }
            s.insert(K::gen(src), T::gen(src));
        }
        Confined::try_from(s).unwrap_or_else(|_| panic!("too few items"))
    }
    fn val(&self) -> StrictVal { StrictVal::Map(self.iter().map(|x| (x.0.val(), x.1.val())).collect()) }
}
impl<const A: usize, const B: usize> Rust for Confined<String, A, B> {
    fn gen(src: &mut Src) -> Self {
        let n = len(src, A, B / 4);
        Confined::try_from((0..n).map(|_| *src.pick(&['a', 'Z', ' ', '"', '\0', 'é', 'Ж', '語', '𐀀', '\n'])).collect::<String>()).unwrap()
    }
    fn val(&self) -> StrictVal { StrictVal::String(self.to_string()) }
}
impl<const A: usize, const B: usize> Rust for Confined<AsciiString, A, B> {
    fn gen(src: &mut Src) -> Self {
        let n = len(src, A, B);
        let b: Vec<u8> = (0..n).map(|_| src.byte() & 0x7f).collect();
        Confined::try_from(AsciiString::from_ascii(b).unwrap()).unwrap()
    }
    fn val(&self) -> StrictVal { StrictVal::String(self.to_string()) }
}
fn name(src: &mut Src, first: &[u8], rest: &[u8], min: usize, max: usize) -> String {
    let n = len(src, min - 1, max - 1);
    let mut s = String::from(*src.pick(first) as char);
    (0..n).for_each(|_| s.push(*src.pick(rest) as char));
    s
}
macro_rules! text {
    ($($t:ty, $first:literal, $rest:literal, $min:literal, $max:literal;)*) => { $(
        impl Rust for $t {
            fn gen(src: &mut Src) -> Self { <$t>::try_from(name(src, $first, $rest, $min, $max)).unwrap() }
            fn val(&self) -> StrictVal { let s: &str = self.as_ref(); StrictVal::String(s.to_string()) }
        }
    )* };
}
text! {
    TypeName, b"ABXYZ_", b"ABCXYZabcxyz0129_", 1, 100;
    FieldName, b"abxyz_", b"ABCXYZabcxyz0129_", 1, 100;
    VariantName, b"abxyz_", b"ABCXYZabcxyz0129_", 1, 100;
    Ident, b"abxyzABZ_", b"ABCXYZabcxyz0129_", 1, 100;
    RString<AlphaCaps, AlphaNumDash, 1, 255>, b"ABCXYZ", b"ABCXYZabcxyz0129-", 1, 255;
    RString<AlphaNum, AlphaNumDash, 2, 40>, b"aZ09", b"aZ09-", 2, 40;
    RString<AlphaSmall, Alpha, 3, 3>, b"abxyz", b"abxyzABXYZ", 3, 3;
    RString<Dec, Dec, 5, 256>, b"0123456789", b"0123456789", 5, 256;
}
fn vname(s: &str) -> VariantName { VariantName::try_from(s.to_string()).unwrap() }

mod types {
    use super::*;
    macro_rules! rec {
        ($n:ident { $($f:ident = $s:literal : $t:ty),* $(,)? }) => {
            #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = "RustTypes")]
            pub struct $n { $(pub $f: $t),* }
            impl Default for $n { fn default() -> Self { Self::dumb() } }
            impl Rust for $n {
                fn gen(src: &mut Src) -> Self { $n { $($f: <$t>::gen(src)),* } }
                fn val(&self) -> StrictVal {
                    StrictVal::Struct([$((FieldName::try_from($s.to_string()).unwrap(), self.$f.val())),*].into_iter().collect())
                }
            }
        };
    }
    macro_rules! tup {
        ($n:ident ( $($f:tt : $t:ty),* )) => {
            #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = "RustTypes")]
            pub struct $n($(pub $t),*);
            impl Default for $n { fn default() -> Self { Self::dumb() } }
            impl Rust for $n {
                fn gen(src: &mut Src) -> Self { $n($(<$t>::gen(src)),*) }
                fn val(&self) -> StrictVal { StrictVal::Tuple(vec![$(self.$f.val()),*]) }
            }
        };
    }
    macro_rules! enu {
        ($n:ident [$($attr:tt)*] { $dumb:ident = $dv:literal, $($v:ident = $x:literal),* $(,)? }) => {
            #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = "RustTypes", tags = repr, into_u8, try_from_u8)]
            #[repr(u8)]
            pub enum $n { $dumb = $dv, $($v = $x),* }
            impl Default for $n { fn default() -> Self { Self::dumb() } }
            impl Rust for $n {
                fn gen(src: &mut Src) -> Self { *src.pick(&[$n::$dumb, $($n::$v),*]) }
                fn val(&self) -> StrictVal { StrictVal::Enum(EnumTag::Name(vname(self.variant_name()))) }
            }
        };
    }
    enu!(Color [] { Red = 3, DeepGreen = 1, Blue = 200, None = 0 });
    enu!(Reverse [] { Zz = 255, Yy = 254, Aa = 0, Bb = 7 });

    rec!(Nums { a = "a": u8, second_num = "secondNum": i8, c = "c": u16, d = "d": u24, e = "e": u32, f = "f": u64, g = "g": i16, h = "h": i32, i = "i": i64, j = "j": u40, k = "k": u48, l = "l": u56, m = "m": bool, n = "n": u5 });
    tup!(Newtype(0: u16));
    tup!(Wrapper(0: Newtype));
    tup!(Pair(0: Color, 1: Nums));
    tup!(Bytes(0: Confined<Vec<u8>, 0, 0xFF>));
    tup!(ByteArray(0: [u8; 4]));
    rec!(Arrays { bytes = "bytes": [u8; 33], words = "words": [u16; 3], colors = "colors": [Color; 2], empty = "empty": [u8; 0] });
    rec!(Lists { small = "small": Confined<Vec<u16>, 0, 0xFFFF>, nonempty = "nonempty": Confined<Vec<Newtype>, 1, 0xFF>, medium = "medium": Confined<Vec<u8>, 0, 0xFFFFFF>, nested = "nested": Confined<Vec<Confined<Vec<Reverse>, 0, 0xFFFF>>, 2, 5> });
    rec!(Sets { bytes = "bytes": Confined<BTreeSet<u8>, 0, 0xFF>, colors = "colors": Confined<BTreeSet<Color>, 1, 0xFF>, wide = "wide": Confined<BTreeSet<Pair2>, 0, 0xFFFF> });
    rec!(Maps { by_num = "byNum": Confined<BTreeMap<u16, Wrapper>, 0, 0xFF>, by_name = "byName": Confined<BTreeMap<FieldName, Shape>, 0, 0xFFFF>, by_color = "byColor": Confined<BTreeMap<Color, Custom>, 1, 0xFF> });
    tup!(Pair2(0: u8, 1: u16));
    rec!(Texts { uni = "uni": Confined<String, 0, 0xFF>, long = "long": Confined<String, 1, 0xFFFF>, ascii = "ascii": Confined<AsciiString, 0, 0xFF>, caps = "caps": RString<AlphaCaps, AlphaNumDash, 1, 255> });
    rec!(Limits { dashed = "dashed": RString<AlphaNum, AlphaNumDash, 2, 40>, code = "code": RString<AlphaSmall, Alpha, 3, 3>, digits = "digits": RString<Dec, Dec, 5, 256> });
    rec!(Names { ty = "ty": TypeName, field = "field": FieldName, variant = "variant": VariantName, ident = "ident": Ident });
    rec!(Options { a = "a": Option<u8>, b = "b": Option<Color>, c = "c": Option<Texts>, d = "d": Option<Bytes>, f = "f": Option<()> });
    tup!(Tuples(0: (u8, u16), 1: (u8, bool, Color), 2: Unit));
    tup!(Boxed(0: Box<Shape>, 1: Box<Nums>));
    tup!(Several(0: Confined<Vec<Shape>, 0, 0xFF>));
    rec!(Deep { first = "first": Maps, second = "second": Option<Several>, third = "third": Custom });

    #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = "RustTypes", tags = repr, into_u8, try_from_u8)]
    #[repr(u8)]
    pub enum Unit {
        One = 0,
        Two = 1,
    }
    impl Default for Unit {
        fn default() -> Self { Self::dumb() }
    }
    impl Rust for Unit {
        fn gen(src: &mut Src) -> Self { if src.bool() { Unit::One } else { Unit::Two } }
        fn val(&self) -> StrictVal { StrictVal::Enum(EnumTag::Ord(*self as u8)) }
    }

    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = "RustTypes", tags = order)]
    pub enum Shape {
        Point,
        Circle(u8),
        BigRect {
            wide_side: u16,
            h: Newtype,
        },
        Colored(Color, Pair2),
        Texts(Confined<String, 0, 0xFF>),
    }
    impl Default for Shape {
        fn default() -> Self { Self::dumb() }
    }
    impl Rust for Shape {
        fn gen(src: &mut Src) -> Self {
            match src.below(5) {
                0 => Shape::Point,
                1 => Shape::Circle(u8::gen(src)),
                2 => Shape::BigRect { wide_side: u16::gen(src), h: Newtype::gen(src) },
                3 => Shape::Colored(Color::gen(src), Pair2::gen(src)),
                _ => Shape::Texts(Rust::gen(src)),
            }
        }
        fn val(&self) -> StrictVal {
            let (n, v) = match self {
                Shape::Point => ("point", StrictVal::Unit),
                Shape::Circle(x) => ("circle", StrictVal::Tuple(vec![x.val()])),
                Shape::BigRect { wide_side, h } => {
                    ("bigRect", StrictVal::Struct([(fieldname("wideSide"), wide_side.val()), (fieldname("h"), h.val())].into_iter().collect()))
                }
                Shape::Colored(c, p) => ("colored", StrictVal::Tuple(vec![c.val(), p.val()])),
                Shape::Texts(s) => ("texts", StrictVal::Tuple(vec![s.val()])),
            };
            StrictVal::Union(EnumTag::Name(vname(n)), Box::new(v))
        }
    }

    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = "RustTypes", tags = custom)]
    pub enum Custom {
        #[strict_type(tag = 0x40)]
        Middle(Shape),
        #[strict_type(tag = 0xff)]
        Last(u8),
        #[strict_type(tag = 0)]
        First { opt: Option<Names> },
        #[strict_type(tag = 0x41)]
        Nothing,
    }
    impl Default for Custom {
        fn default() -> Self { Self::dumb() }
    }
    impl Rust for Custom {
        fn gen(src: &mut Src) -> Self {
            match src.below(4) {
                0 => Custom::Middle(Shape::gen(src)),
                1 => Custom::Last(u8::gen(src)),
                2 => Custom::First { opt: Rust::gen(src) },
                _ => Custom::Nothing,
            }
        }
        fn val(&self) -> StrictVal {
            let (t, v) = match self {
                Custom::Middle(x) => (0x40, StrictVal::Tuple(vec![x.val()])),
                Custom::Last(x) => (0xff, StrictVal::Tuple(vec![x.val()])),
                Custom::First { opt } => (0, StrictVal::Struct([(fieldname("opt"), opt.val())].into_iter().collect())),
                Custom::Nothing => (0x41, StrictVal::Unit),
            };
            StrictVal::Union(EnumTag::Ord(t), Box::new(v))
        }
    }
}
use types::*;

macro_rules! for_types {
    ($m:ident) => {
        $m!(
            Nums, Color, Reverse, Newtype, Wrapper, Pair, Bytes, ByteArray, Arrays, Lists, Sets, Maps, Pair2, Texts, Limits, Names, Options, Tuples, Boxed, Several, Deep, Unit,
            Shape, Custom
        )
    };
}

struct Sys {
    sys: SymbolicSys,
    ids: BTreeMap<String, SemId>,
}
fn system() -> Result<&'static Sys, Fail> {
    static S: OnceLock<Result<Sys, String>> = OnceLock::new();
    let s = S.get_or_init(|| {
        guarded(|| -> Result<Sys, String> {
            let std = std_stl();
            let own = strict_types_stl();
            let mut b = LibBuilder::with(liname(LIB), [std.to_dependency_types(), own.to_dependency_types()]);
            macro_rules! add { ($($t:ty),*) => { $( b = b.transpile::<$t>(); )* } }
            for_types!(add);
            let lib = b.compile().map_err(|e| e.to_string())?;
            let b = SystemBuilder::new();
            let b = b.import(lib).map_err(|e| e.to_string())?;
            let b = b.import(std).map_err(|e| e.to_string())?;
            let b = b.import(own).map_err(|e| e.to_string())?;
            let sys = b.finalize().map_err(|e| format!("{e:?}"))?;
            let mut ids = BTreeMap::new();
            macro_rules! find { ($($t:ty),*) => { $(
                let n = <$t>::strict_name().unwrap().to_string();
                let f = strict_types::typesys::TypeFqn::with(liname(LIB), tyname(&n));
                ids.insert(n, *sys.resolve(f.clone()).ok_or(format!("no type {f}"))?);
            )* } }
            for_types!(find);
            Ok(Sys { sys, ids })
        })
        .unwrap_or_else(Err)
    });
    s.as_ref().map_err(|e| Fail { msg: format!("library of Rust types can't be used: {e}") })
}

fn one<T: Rust>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = system()?;
    let id = s.ids[T::strict_name().unwrap().as_str()];
    let x = T::gen(src);
    let bytes = ser(&x);
    ctx.nontrivial = true;
    ctx.class(T::strict_name().unwrap().as_str());
    ctx.sample(|| format!("{x:?}").chars().take(300).collect());
    ctx.fingerprint(&bytes);
    let types = s.sys.as_types();
    // the value written by hand
    let v = x.val();
    let typed = match guarded(|| s.sys.typify(v.clone(), id)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => fail!("{x:?} as {} is refused: {e}", brief_val(&v)),
        Err(p) => fail!("{x:?} as {}: {p}", brief_val(&v)),
    };
    let b = guarded(|| types.strict_serialize_value::<{ u32::MAX as usize }>(&typed)).map_err(|p| Fail { msg: p })?;
    match b {
        Ok(b) => ensure!(b.as_slice() == bytes, "{x:?} is encoded as {} and its reflection as {}", hex(&bytes), hex(&b)),
        Err(e) => fail!("{x:?} as {} isn't serialized: {e}", brief_val(&v)),
    }
    // the value read by the type
    let mut r = StreamReader::cursor::<{ u32::MAX as usize }>(bytes.clone());
    let typed = match guarded(|| types.strict_read_type(id, &mut r)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => fail!("encoding {} of {x:?} isn't read: {e}", hex(&bytes)),
        Err(p) => fail!("encoding {} of {x:?}: {p}", hex(&bytes)),
    };
    ensure!(r.unconfine().position() as usize == bytes.len(), "encoding of {x:?} isn't read to the end");
    let b = types.strict_serialize_value::<{ u32::MAX as usize }>(&typed).map_err(|e| Fail { msg: e.to_string() })?;
    ensure!(b.as_slice() == bytes, "{x:?} is read as {}", brief_val(typed.as_val()));
    ensure!(de::<T>(&b).is_ok_and(|y| y.0 == x), "{x:?} has another value after it went through its reflection");
    Ok(())
}

fn c20_values(src: &mut Src, ctx: &mut Ctx) -> Res {
    macro_rules! run { ($($t:ty),*) => {{
        let all: &[fn(&mut Src, &mut Ctx) -> Res] = &[$(one::<$t>),*];
        (src.pick(all))(src, ctx)
    }} }
    for_types!(run)
}

fn native<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), String> {
    let mut r = StrictReader::in_memory::<{ u32::MAX as usize }>(b);
    match guarded(|| T::strict_decode(&mut r)) {
        Ok(Ok(t)) => Ok((t, r.unbox().unconfine().position() as usize)),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(p),
    }
}

fn two<T: Rust>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let s = system()?;
    let name = T::strict_name().unwrap();
    let id = s.ids[name.as_str()];
    let mut bytes = if src.below(8) == 0 {
        let n = src.usize(0, 40);
        src.bytes(n)
    } else {
        ser(&T::gen(src))
    };
    for _ in 0..src.usize(0, 2) {
        corrupt(src, &mut bytes);
    }
    ctx.nontrivial = true;
    ctx.fingerprint(&bytes);
    ctx.sample(|| format!("{name}: {}", hex(&bytes)));
    let types = s.sys.as_types();
    let mut r = StreamReader::cursor::<{ u32::MAX as usize }>(bytes.clone());
    let refl = match guarded(|| types.strict_read_type(id, &mut r)) {
        Ok(Ok(t)) => Ok((t, r.unconfine().position() as usize)),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => fail!("reading {} as {name}: {p}", hex(&bytes)),
    };
    match (native::<T>(&bytes), refl) {
        (Ok((x, n)), Ok((t, m))) => {
            ctx.class("accepted");
            ensure!(n == m, "{name} takes {n} bytes of {}, its reflection {m}", hex(&bytes));
            let b = types.strict_serialize_value::<{ u32::MAX as usize }>(&t).map_err(|e| Fail { msg: e.to_string() })?;
            ensure!(b.as_slice() == &bytes[..n] && ser(&x) == bytes[..n], "{} is read as {x:?} and as {}", hex(&bytes), brief_val(t.as_val()));
        }
        (Ok((x, _)), Err(e)) => fail!("{} is {x:?}, but is refused by its reflection: {e}", hex(&bytes)),
        // order of items of sets and maps isn't known to the reflection
        (Err(_), Ok(_)) if matches!(name.as_str(), "Sets" | "Maps" | "Deep") => ctx.class("accepted in another order"),
        (Err(e), Ok((t, _))) => fail!("{} isn't a {name}: {e}; but it is read by its reflection as {}", hex(&bytes), brief_val(t.as_val())),
        (Err(_), Err(_)) => ctx.class("refused"),
    }
    Ok(())
}
fn c20_bytes(src: &mut Src, ctx: &mut Ctx) -> Res {
    macro_rules! run { ($($t:ty),*) => {{
        let all: &[fn(&mut Src, &mut Ctx) -> Res] = &[$(two::<$t>),*];
        (src.pick(all))(src, ctx)
    }} }
    for_types!(run)
}

// ------------------------------------------------------------------ C34

pub static C34: Prop = Prop {
    id: "C34",
    rule: "random libraries, symbolic systems and layouts of their types, read by the types of the StrictTypes library",
    subs: &[Sub { name: "self", quick: 8_000, thorough: 300_000, run: c34 }],
    known: &[],
    assumptions: &[],
};

fn own() -> Result<&'static Sys, Fail> {
    static S: OnceLock<Result<Sys, String>> = OnceLock::new();
    let s = S.get_or_init(|| {
        guarded(|| -> Result<Sys, String> {
            let b = SystemBuilder::new().import(strict_types_stl()).map_err(|e| e.to_string())?;
            let sys = b.import(std_stl()).map_err(|e| e.to_string())?.finalize().map_err(|e| format!("{e:?}"))?;
            let mut ids = BTreeMap::new();
            for n in ["TypeLib", "SymbolicSys", "MemoryLayout", "TypeSymbol", "SymbolRef", "TypeSysId", "LibName", "TypeName"] {
                let f = strict_types::typesys::TypeFqn::with(liname("StrictTypes"), tyname(n));
                ids.insert(n.to_string(), *sys.resolve(f.clone()).ok_or(format!("no type {f}"))?);
            }
            Ok(Sys { sys, ids })
        })
        .unwrap_or_else(Err)
    });
    s.as_ref().map_err(|e| Fail { msg: format!("own library can't be used: {e}") })
}
fn part<'a>(v: &'a StrictVal, n: &str) -> Result<&'a StrictVal, Fail> {
    match v {
        StrictVal::Struct(f) => f.get(&fieldname(n)).ok_or(Fail { msg: format!("no field {n} in {}", brief_val(v)) }),
        StrictVal::Tuple(f) if f.len() == 1 => part(&f[0], n),
        v => fail!("no field {n} in {}", brief_val(v)),
    }
}
fn itself(what: &str, bytes: &[u8]) -> Result<StrictVal, Fail> {
    let s = own()?;
    let types = s.sys.as_types();
    let mut r = StreamReader::cursor::<{ u32::MAX as usize }>(bytes.to_vec());
    let typed = match guarded(|| types.strict_read_type(s.ids[what], &mut r)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => fail!("{what} {} isn't read by its own type: {e}", hex(bytes)),
        Err(p) => fail!("{what} {}: {p}", hex(bytes)),
    };
    ensure!(r.unconfine().position() as usize == bytes.len(), "{what} isn't read to the end by its own type");
    let b = types.strict_serialize_value::<{ u32::MAX as usize }>(&typed).map_err(|e| Fail { msg: e.to_string() })?;
    ensure!(b.as_slice() == bytes, "{what} is read as {}", brief_val(typed.as_val()));
    Ok(typed.as_val().clone())
}
fn text(v: &StrictVal) -> String {
    match v {
        StrictVal::String(s) => s.clone(),
        StrictVal::Tuple(f) if f.len() == 1 => text(&f[0]),
        v => format!("? {v:?}"),
    }
}

/// Larger items take seconds.
const MAX_SELF: usize = 20_000;

fn c34(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, ids) = world(src, ctx);
    note_world(ctx, &w);
    for l in 0..w.libs.len() {
        let b = ser::<TypeLib>(&w.type_lib(&ids, l));
        if b.len() > MAX_SELF {
            continue;
        }
        ctx.class("library");
        let v = itself("TypeLib", &b)?;
        ensure!(text(part(&v, "name")?) == w.libs[l].name, "name of the library is read as {}", brief_val(part(&v, "name")?));
        let StrictVal::Map(m) = part(&v, "types")? else { fail!("types of the library are read as {}", brief_val(&v)) };
        let mut names: Vec<&str> = w.libs[l].types.iter().map(|x| x.0.as_str()).collect();
        names.sort();
        ensure!(m.iter().map(|x| text(&x.0)).collect::<Vec<_>>() == names, "names of types are read as {:?}", m.iter().map(|x| text(&x.0)).collect::<Vec<_>>());
    }
    let order: Vec<usize> = (0..w.libs.len()).collect();
    let sys = import_all(&w, &ids, &order)?;
    let b = ser(&sys);
    if b.len() <= MAX_SELF {
        itself("SymbolicSys", &b)?;
        ctx.class("system");
    }
    let l = w.any_lib(src);
    let t = src.usize(0, w.libs[l].types.len() - 1);
    let (ln, tn) = (liname(&w.libs[l].name), tyname(&w.libs[l].types[t].0));
    let r = SymbolRef::with(ln.clone(), tn.clone(), libid(ids.libs[l]), semid(ids.types[l][t]));
    let v = itself("SymbolRef", &ser(&r))?;
    ensure!(text(part(&v, "libName")?) == ln.as_str() && text(part(&v, "tyName")?) == tn.as_str(), "reference {r:?} is read as {}", brief_val(&v));
    itself("TypeSymbol", &ser(&TypeSymbol::with(semid(ids.types[l][t]), TypeFqn::with(ln.clone(), tn.clone()))))?;
    itself("TypeSymbol", &ser(&TypeSymbol::unnamed(semid(ids.types[l][t]))))?;
    itself("TypeSysId", &ser(&sys.id()))?;
    ensure!(text(&itself("LibName", &ser(&ln))?) == ln.as_str() && text(&itself("TypeName", &ser(&tn))?) == tn.as_str(), "names {ln}, {tn}");
    // the two forms of the published libraries are the same libraries
    static SAME: OnceLock<Result<bool, String>> = OnceLock::new();
    let same = SAME.get_or_init(|| {
        guarded(|| {
            std_sym().compile().as_ref() == Ok(&std_stl())
                && strict_types_sym().compile().as_ref() == Ok(&strict_types_stl())
                && std_stl().id().to_string() == LIB_ID_STD
                && strict_types_stl().id().to_string() == LIB_ID_STRICT_TYPES
        })
    });
    ensure!(*same == Ok(true), "symbolic and compiled forms of the published libraries differ: {same:?}");
    let f = strict_types::typesys::TypeFqn::with(liname(&w.libs[l].name), tyname(&w.libs[l].types[t].0));
    if layout_size(&w, &w.libs[l].types[t].1, &mut BTreeMap::new()) > 400 {
        return Ok(());
    }
    if let Some(tree) = sys.type_tree(f) {
        let layout = guarded(|| tree.to_layout()).map_err(|p| Fail { msg: p })?;
        let b = ser(&layout);
        if b.len() <= MAX_SELF {
            itself("MemoryLayout", &b)?;
            ctx.class("layout");
        }
    }
    Ok(())
}

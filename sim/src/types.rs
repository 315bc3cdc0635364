//! The catalog of types which are serialized and deserialized.
use crate::core::{self, SimState};
use crate::hand::{Dyn, Inside, MixKey};
use crate::model::{Field, Schema, StructSchema, Val};
use crate::probe::Probe;
use deser::de::{DeserializeDriver, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Deserialize, Error, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use std::sync::Arc;

// ---------------------------------------------------------------- generation

/// A source of generated values: draws, or the repetition of earlier draws.
pub struct Gen {
    pub rec: Vec<u64>,
    replay: Option<usize>,
    pub budget: i64,
    pub max: u64,
    /// non finite floats are fine
    pub non_finite: bool,
    /// one container with this many items
    pub long: u64,
    /// one string with this many characters
    pub wide: u64,
    /// this many levels of a recursive type
    pub deep: u64,
    size: [u64; 3],
    /// huge values are not drawn one by one
    cheap: Option<u64>,
}

impl Gen {
    pub fn live(max: u64) -> Gen {
        Gen {
            rec: Vec::new(),
            replay: None,
            budget: 60,
            max,
            non_finite: false,
            long: 0,
            wide: 0,
            deep: 0,
            size: [0; 3],
            cheap: None,
        }
    }

    pub fn again(&self) -> Gen {
        Gen {
            rec: self.rec.clone(),
            replay: Some(0),
            budget: 60,
            max: self.max,
            non_finite: self.non_finite,
            long: self.size[0],
            wide: self.size[1],
            deep: self.size[2],
            size: self.size,
            cheap: None,
        }
    }

    /// Makes some values unusually large.
    pub fn sized(mut self, size: [u64; 3]) -> Gen {
        self.size = size;
        self.long = size[0];
        self.wide = size[1];
        self.deep = size[2];
        if self.long.max(self.wide) >= 4_000 {
            self.cheap = Some(core::draw(1 << 32));
        }
        self
    }

    pub fn draw(&mut self, n: u64) -> u64 {
        match self.replay {
            Some(ref mut pos) => {
                *pos += 1;
                self.rec.get(*pos - 1).copied().unwrap_or(0) % n
            }
            None => {
                let v = match self.cheap {
                    Some(ref mut seed) => {
                        *seed += 1;
                        core::mix(*seed) % n
                    }
                    None => core::draw(n),
                };
                self.rec.push(v);
                v
            }
        }
    }

    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }

    pub fn len(&mut self) -> usize {
        self.budget -= 1;
        if self.budget < 0 {
            return 0;
        }
        if self.long > 0 {
            self.budget = self.budget.min(20);
            return std::mem::take(&mut self.long) as usize;
        }
        let n = self.draw(self.max + 1);
        self.budget -= n as i64;
        n as usize
    }

    pub fn string(&mut self) -> String {
        const ALPHA: [&str; 24] = [
            "a", "b", "x", "key", "0", " ", "\"", "\\", "/", "\n", "\t", "\r", "\u{8}", "\u{c}",
            "\u{0}", "\u{1f}", "\u{7f}", "é", "ß", "\u{2028}", "日", "\u{ffff}", "😀", "\u{10ffff}",
        ];
        let mut n = self.draw(6);
        if self.wide > 0 {
            n = std::mem::take(&mut self.wide);
        }
        let plain = self.chance(1, 2);
        let any = !plain && self.chance(1, 4);
        let mut rv = String::new();
        for _ in 0..n {
            if any {
                rv.push(self.any_char());
                continue;
            }
            let limit = if plain { 5 } else { ALPHA.len() as u64 };
            rv.push_str(ALPHA[self.draw(limit) as usize]);
        }
        rv
    }

    pub fn any_char(&mut self) -> char {
        let n = match self.draw(4) {
            0 => self.draw(0x20),
            1 => self.draw(0x80),
            2 => self.draw(0x800),
            _ => self.draw(0x110000),
        };
        char::from_u32(n as u32).unwrap_or('?')
    }

    pub fn int(&mut self, min: i128, max: i128) -> i128 {
        let pool = [
            0,
            1,
            2,
            -1,
            10,
            127,
            128,
            -128,
            -129,
            255,
            256,
            32767,
            32768,
            -32768,
            65535,
            65536,
            (1 << 31) - 1,
            1 << 31,
            -(1i128 << 31),
            (1 << 32) - 1,
            1 << 32,
            1 << 53,
            (1 << 53) + 1,
            (1i128 << 63) - 1,
            1i128 << 63,
            -(1i128 << 63),
            (1i128 << 64) - 1,
            min,
            max,
            min + 1,
            max - 1,
        ];
        if max == 255 && self.chance(1, 3) {
            // a byte which can mean something
            const BYTES: [u8; 20] = *b"\0\t\n\r\"\\'/[]{},:09az\x7f\x80";
            return BYTES[self.draw(20) as usize] as i128;
        }
        let v = match self.draw(8) {
            0 => {
                // any number of bits
                let bits = self.draw(64) + 1;
                let n = self.draw(u64::MAX) >> (64 - bits);
                if self.draw(2) == 1 {
                    -(n as i128)
                } else {
                    n as i128
                }
            }
            1 | 2 => self.draw(1000) as i128,
            _ => pool[self.draw(pool.len() as u64) as usize],
        };
        v.clamp(min, max)
    }

    pub fn float(&mut self, max: f64, tiny: f64) -> f64 {
        let n = if self.non_finite { 20 } else { 16 };
        match self.draw(n) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.5,
            3 => 0.1,
            4 => -0.0,
            5 => max,
            6 => -max,
            7 => tiny,
            8 => 1e21,
            9 => 123456789.125,
            10 => 16777217.0,
            11 => 9007199254740993.0,
            12 => {
                let m = self.draw(1 << 53) as f64;
                let e = self.draw(60) as i32 - 30;
                m * 10f64.powi(e)
            }
            13 => 1e-30,
            14 => {
                // any exponent
                let m = (self.draw(1 << 20) + 1) as f64;
                let e = self.draw(632) as i32 - 324;
                (m / 1048577.0) * max.min(10f64.powi(e))
            }
            15 => {
                // any number
                let v = f64::from_bits(self.draw(u64::MAX));
                if v.is_finite() {
                    v
                } else {
                    1.5
                }
            }
            16 => f64::INFINITY,
            17 => f64::NEG_INFINITY,
            18 => f64::NAN,
            _ => f64::NAN.copysign(-1.0),
        }
    }
}

// ---------------------------------------------------------------- the trait of all types

pub trait Sim: Serialize + Deserialize + Send + Sync + Sized + 'static {
    fn schema() -> Schema;
    fn gen(g: &mut Gen) -> Self;
    fn norm(&self) -> Val;
}

impl Sim for () {
    fn schema() -> Schema {
        Schema::Unit
    }
    fn gen(_: &mut Gen) -> Self {}
    fn norm(&self) -> Val {
        Val::Unit
    }
}

impl Sim for bool {
    fn schema() -> Schema {
        Schema::Bool
    }
    fn gen(g: &mut Gen) -> Self {
        g.draw(2) == 1
    }
    fn norm(&self) -> Val {
        Val::Bool(*self)
    }
}

macro_rules! sim_int {
    ($($ty:ident)*) => {$(
        impl Sim for $ty {
            fn schema() -> Schema {
                Schema::Int { min: $ty::MIN as i128, max: $ty::MAX as i128, name: stringify!($ty) }
            }
            fn gen(g: &mut Gen) -> Self {
                g.int($ty::MIN as i128, $ty::MAX as i128) as $ty
            }
            fn norm(&self) -> Val {
                Val::Int(*self as i128)
            }
        }
    )*};
}
sim_int!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

impl Sim for f32 {
    fn schema() -> Schema {
        Schema::F32
    }
    fn gen(g: &mut Gen) -> Self {
        let v = g.float(f32::MAX as f64, f32::MIN_POSITIVE as f64) as f32;
        if v.is_infinite() && !g.non_finite {
            f32::MAX
        } else {
            v
        }
    }
    fn norm(&self) -> Val {
        Val::F32(*self)
    }
}

impl Sim for f64 {
    fn schema() -> Schema {
        Schema::F64
    }
    fn gen(g: &mut Gen) -> Self {
        g.float(f64::MAX, f64::MIN_POSITIVE)
    }
    fn norm(&self) -> Val {
        Val::F64(*self)
    }
}

impl Sim for String {
    fn schema() -> Schema {
        Schema::Str
    }
    fn gen(g: &mut Gen) -> Self {
        g.string()
    }
    fn norm(&self) -> Val {
        Val::Str(self.clone())
    }
}

impl Sim for char {
    fn schema() -> Schema {
        Schema::Char
    }
    fn gen(g: &mut Gen) -> Self {
        const CHARS: [char; 12] = [
            'a', 'Z', '0', '"', '\\', '\n', '\0', '\u{7f}', 'é', '\u{d7ff}', '\u{e000}',
            '\u{10ffff}',
        ];
        match g.draw(CHARS.len() as u64 + 4) as usize {
            n if n < CHARS.len() => CHARS[n],
            _ => g.any_char(),
        }
    }
    fn norm(&self) -> Val {
        Val::Char(*self)
    }
}

fn seq_or_bytes<'a, T: Sim>(items: impl Iterator<Item = &'a T>) -> Val {
    let items: Vec<Val> = items.map(|x| x.norm()).collect();
    if T::schema().is_byte() {
        Val::Bytes(
            items
                .iter()
                .map(|x| match x {
                    Val::Int(n) => *n as u8,
                    _ => unreachable!(),
                })
                .collect(),
        )
    } else {
        Val::Seq(items)
    }
}

impl<T: Sim> Sim for Vec<T> {
    fn schema() -> Schema {
        Schema::Vec(Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        (0..g.len()).map(|_| T::gen(g)).collect()
    }
    fn norm(&self) -> Val {
        seq_or_bytes(self.iter())
    }
}

impl<T: Sim, const N: usize> Sim for [T; N] {
    fn schema() -> Schema {
        Schema::Array(N, Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        std::array::from_fn(|_| T::gen(g))
    }
    fn norm(&self) -> Val {
        seq_or_bytes(self.iter())
    }
}

impl<T: Sim> Sim for Option<T> {
    fn schema() -> Schema {
        Schema::Opt(Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        g.budget -= 1;
        if g.budget > 0 && g.chance(2, 3) {
            Some(T::gen(g))
        } else {
            None
        }
    }
    fn norm(&self) -> Val {
        match self {
            Some(v) => Val::Some(Box::new(v.norm())),
            None => Val::None,
        }
    }
}

impl<T: Sim> Sim for Box<T> {
    fn schema() -> Schema {
        Schema::Wrap(Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        Box::new(T::gen(g))
    }
    fn norm(&self) -> Val {
        (**self).norm()
    }
}

impl<T: Sim> Sim for Probe<T> {
    fn schema() -> Schema {
        Schema::Probe(Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        Probe::new(T::gen(g))
    }
    fn norm(&self) -> Val {
        Val::Probe(self.id, Box::new(self.inner.norm()))
    }
}

impl<K: Sim + Ord, V: Sim> Sim for BTreeMap<K, V> {
    fn schema() -> Schema {
        Schema::Map("BTreeMap", Box::new(K::schema()), Box::new(V::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        (0..g.len()).map(|_| (K::gen(g), V::gen(g))).collect()
    }
    fn norm(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.norm(), v.norm())).collect())
    }
}

impl<K: Sim + Hash + Eq, V: Sim> Sim for HashMap<K, V, SimState> {
    fn schema() -> Schema {
        Schema::Map("HashMap", Box::new(K::schema()), Box::new(V::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        (0..g.len()).map(|_| (K::gen(g), V::gen(g))).collect()
    }
    fn norm(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.norm(), v.norm())).collect())
    }
}

impl<K: Sim + Hash + Eq, V: Sim> Sim for HashMap<K, V> {
    fn schema() -> Schema {
        Schema::Map("HashMap", Box::new(K::schema()), Box::new(V::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        (0..g.len()).map(|_| (K::gen(g), V::gen(g))).collect()
    }
    fn norm(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.norm(), v.norm())).collect())
    }
}

impl<T: Sim + Ord> Sim for BTreeSet<T> {
    fn schema() -> Schema {
        Schema::Set("BTreeSet", Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        (0..g.len()).map(|_| T::gen(g)).collect()
    }
    fn norm(&self) -> Val {
        Val::Set(self.iter().map(|v| v.norm()).collect())
    }
}

impl<T: Sim + Hash + Eq> Sim for HashSet<T> {
    fn schema() -> Schema {
        Schema::Set("HashSet", Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        (0..g.len()).map(|_| T::gen(g)).collect()
    }
    fn norm(&self) -> Val {
        Val::Set(self.iter().map(|v| v.norm()).collect())
    }
}

macro_rules! sim_tuple {
    ($($name:ident)*) => {
        impl<$($name: Sim),*> Sim for ($($name,)*) {
            fn schema() -> Schema {
                Schema::Tuple(vec![$($name::schema()),*])
            }
            fn gen(g: &mut Gen) -> Self {
                ($($name::gen(g),)*)
            }
            #[allow(non_snake_case)]
            fn norm(&self) -> Val {
                let ($($name,)*) = self;
                Val::Seq(vec![$($name.norm()),*])
            }
        }
    };
}
sim_tuple!(A);
sim_tuple!(A B);
sim_tuple!(A B C);
sim_tuple!(A B C D);
sim_tuple!(A B C D E);
sim_tuple!(A B C D E F);
sim_tuple!(A B C D E F G);
sim_tuple!(A B C D E F G H);
sim_tuple!(A B C D E F G H I);
sim_tuple!(A B C D E F G H I J);
sim_tuple!(A B C D E F G H I J K);
sim_tuple!(A B C D E F G H I J K L);

// ---------------------------------------------------------------- structs

impl Field {
    fn new(name: &'static str, schema: Schema) -> Field {
        Field {
            name,
            aliases: &[],
            schema,
            default: None,
            flatten: false,
            skip_if: None,
        }
    }
}

macro_rules! sim_struct {
    ($ty:ident, $name:expr, {
        $($field:ident : $fty:ty, $key:expr $(, $opt:ident = $val:expr)*;)*
    } $(, $copt:ident = $cval:expr)*) => {
        impl Sim for $ty {
            fn schema() -> Schema {
                Schema::Struct(Arc::new(StructSchema {
                    $($copt: $cval,)*
                    ..StructSchema {
                        name: $name,
                        fields: vec![$(Field {
                            $($opt: $val,)*
                            ..Field::new($key, <$fty as Sim>::schema())
                        }),*],
                        default: None,
                        skip_optionals: false,
                    }
                }))
            }
            fn gen(g: &mut Gen) -> Self {
                $ty { $($field: Sim::gen(g)),* }
            }
            fn norm(&self) -> Val {
                Val::Struct(vec![$(($key, self.$field.norm())),*])
            }
        }
    };
}

macro_rules! sim_enum {
    ($ty:ident, { $($var:ident, $key:expr, $aliases:expr;)* }) => {
        impl Sim for $ty {
            fn schema() -> Schema {
                Schema::Enum(&[$(($key, &$aliases)),*])
            }
            fn gen(g: &mut Gen) -> Self {
                let all = [$($ty::$var),*];
                all[g.draw(all.len() as u64) as usize]
            }
            fn norm(&self) -> Val {
                Val::Enum(match self {
                    $($ty::$var => $key,)*
                })
            }
        }
    };
}

macro_rules! sim_newtype {
    ($ty:ident, $inner:ty) => {
        impl Sim for $ty {
            fn schema() -> Schema {
                Schema::Wrap(Box::new(<$inner as Sim>::schema()))
            }
            fn gen(g: &mut Gen) -> Self {
                $ty(Sim::gen(g))
            }
            fn norm(&self) -> Val {
                self.0.norm()
            }
        }
    };
}

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Color {
    Red,
    #[deser(alias = "verde", alias = "vert")]
    Green,
    #[deser(rename = "azul")]
    Blue,
}
sim_enum!(Color, {
    Red, "Red", [];
    Green, "Green", ["verde", "vert"];
    Blue, "azul", [];
});

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[deser(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum Level {
    VeryLow,
    #[deser(alias = "mid")]
    Middle,
    High,
}
sim_enum!(Level, {
    VeryLow, "VERY_LOW", [];
    Middle, "MIDDLE", ["mid"];
    High, "HIGH", [];
});

#[derive(Serialize, Deserialize)]
pub struct Point {
    x: i32,
    y: Probe<i32>,
}
sim_struct!(Point, "Point", {
    x: i32, "x";
    y: Probe<i32>, "y";
});

#[derive(Serialize, Deserialize)]
pub struct Empty {}
impl Sim for Empty {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "Empty",
            fields: vec![],
            default: None,
            skip_optionals: false,
        }))
    }
    fn gen(_: &mut Gen) -> Self {
        Empty {}
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![])
    }
}

#[derive(Serialize, Deserialize)]
pub struct Opts {
    oa: Option<u8>,
    ob: Option<Probe<String>>,
    oc: Option<Vec<Probe<u16>>>,
    od: Option<Box<Point>>,
}
sim_struct!(Opts, "Opts", {
    oa: Option<u8>, "oa";
    ob: Option<Probe<String>>, "ob";
    oc: Option<Vec<Probe<u16>>>, "oc";
    od: Option<Box<Point>>, "od";
});

#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals, rename = "Skipping")]
pub struct SkipOpts {
    a: Option<Probe<u8>>,
    #[deser(default)]
    b: (),
    #[deser(default)]
    c: Box<Option<Probe<u8>>>,
    d: Vec<u16>,
    e: Option<Vec<u16>>,
}
sim_struct!(SkipOpts, "Skipping", {
    a: Option<Probe<u8>>, "a";
    b: (), "b", default = Some(|| Val::Unit);
    c: Box<Option<Probe<u8>>>, "c", default = Some(|| Val::None);
    d: Vec<u16>, "d";
    e: Option<Vec<u16>>, "e";
}, skip_optionals = true);

fn mk_string() -> Probe<String> {
    core::cb_user(0);
    Probe::new("made up".into())
}

#[derive(Serialize, Deserialize)]
pub struct Defaults {
    #[deser(default)]
    a: u32,
    #[deser(default = "mk_string")]
    b: Probe<String>,
    c: Probe<u8>,
    #[deser(default)]
    d: Option<Probe<u8>>,
    #[deser(default)]
    e: Vec<Probe<bool>>,
}
sim_struct!(Defaults, "Defaults", {
    a: u32, "a", default = Some(|| Val::Int(0));
    b: Probe<String>, "b", default = Some(|| Val::Str("made up".into()));
    c: Probe<u8>, "c";
    d: Option<Probe<u8>>, "d", default = Some(|| Val::None);
    e: Vec<Probe<bool>>, "e", default = Some(|| Val::Seq(vec![]));
});

#[derive(Serialize, Deserialize)]
#[deser(default)]
pub struct ContDefault {
    a: u32,
    b: Option<u8>,
    c: Probe<String>,
    #[deser(default)]
    d: u8,
}
impl Default for ContDefault {
    fn default() -> Self {
        core::cb_user(0);
        ContDefault {
            a: 77,
            b: Some(5),
            c: Probe::new("dflt".into()),
            d: 99,
        }
    }
}
sim_struct!(ContDefault, "ContDefault", {
    a: u32, "a";
    b: Option<u8>, "b";
    c: Probe<String>, "c";
    d: u8, "d", default = Some(|| Val::Int(0));
}, default = Some(|| Val::Struct(vec![
    ("a", Val::Int(77)),
    ("b", Val::Some(Box::new(Val::Int(5)))),
    ("c", Val::Str("dflt".into())),
    ("d", Val::Int(99)),
])));

fn mk_fn_default() -> FnDefault {
    core::cb_user(0);
    FnDefault {
        p: vec![Probe::new(3)],
        q: (1, Probe::new(true)),
    }
}

#[derive(Serialize, Deserialize)]
#[deser(default = "mk_fn_default")]
pub struct FnDefault {
    p: Vec<Probe<u8>>,
    q: (u8, Probe<bool>),
}
sim_struct!(FnDefault, "FnDefault", {
    p: Vec<Probe<u8>>, "p";
    q: (u8, Probe<bool>), "q";
}, default = Some(|| Val::Struct(vec![
    ("p", Val::Seq(vec![Val::Int(3)])),
    ("q", Val::Seq(vec![Val::Int(1), Val::Bool(true)])),
])));

#[derive(Serialize, Deserialize)]
pub struct Flat1 {
    a: u8,
    #[deser(flatten)]
    p: Point,
    b: Probe<String>,
}
sim_struct!(Flat1, "Flat1", {
    a: u8, "a";
    p: Point, "p", flatten = true;
    b: Probe<String>, "b";
});

#[derive(Serialize, Deserialize)]
pub struct FlatInner {
    ia: Vec<Probe<u8>>,
    #[deser(alias = "zwei")]
    ib: Option<u8>,
    #[deser(default)]
    ic: Probe<u8>,
}
sim_struct!(FlatInner, "FlatInner", {
    ia: Vec<Probe<u8>>, "ia";
    ib: Option<u8>, "ib", aliases = &["zwei"];
    ic: Probe<u8>, "ic", default = Some(|| Val::Int(0));
});

#[derive(Serialize, Deserialize)]
pub struct Flat2 {
    #[deser(flatten)]
    one: FlatInner,
    #[deser(flatten)]
    two: Probe<Point>,
    z: Probe<u8>,
}
sim_struct!(Flat2, "Flat2", {
    one: FlatInner, "one", flatten = true;
    two: Probe<Point>, "two", flatten = true;
    z: Probe<u8>, "z";
});

#[derive(Serialize, Deserialize)]
pub struct BoxedPoint(Box<Point>);
sim_newtype!(BoxedPoint, Box<Point>);

#[derive(Serialize, Deserialize)]
pub struct FlatDeep {
    head: Probe<bool>,
    #[deser(flatten)]
    mid: Box<FlatMid>,
    tail: Vec<u16>,
}
sim_struct!(FlatDeep, "FlatDeep", {
    head: Probe<bool>, "head";
    mid: Box<FlatMid>, "mid", flatten = true;
    tail: Vec<u16>, "tail";
});

#[derive(Serialize, Deserialize)]
pub struct FlatMid {
    m1: u8,
    #[deser(flatten)]
    inner: BoxedPoint,
    m2: Probe<u8>,
}
sim_struct!(FlatMid, "FlatMid", {
    m1: u8, "m1";
    inner: BoxedPoint, "inner", flatten = true;
    m2: Probe<u8>, "m2";
});

#[derive(Serialize, Deserialize)]
pub struct Alias {
    #[deser(alias = "n", alias = "nom")]
    name: String,
    #[deser(rename = "type", alias = "kind")]
    ty: Probe<u16>,
    level: Level,
}
sim_struct!(Alias, "Alias", {
    name: String, "name", aliases = &["n", "nom"];
    ty: Probe<u16>, "type", aliases = &["kind"];
    level: Level, "level";
});

#[derive(Serialize, Deserialize)]
#[deser(rename_all = "camelCase")]
pub struct Camel {
    first_name: Probe<String>,
    second_value: BTreeMap<String, Option<Probe<i8>>>,
    plain: (),
}
sim_struct!(Camel, "Camel", {
    first_name: Probe<String>, "firstName";
    second_value: BTreeMap<String, Option<Probe<i8>>>, "secondValue";
    plain: (), "plain";
});

fn is_zero(n: &u32) -> bool {
    core::cb_user(0);
    *n == 0
}
fn inner_empty(p: &FlatInner) -> bool {
    core::cb_user(0);
    p.ia.is_empty()
}

#[derive(Serialize, Deserialize)]
pub struct SkipIf {
    #[deser(skip_serializing_if = "is_zero", default)]
    n: u32,
    m: Probe<u8>,
    #[deser(skip_serializing_if = "Vec::is_empty", default)]
    v: Vec<Probe<u8>>,
}
sim_struct!(SkipIf, "SkipIf", {
    n: u32, "n", default = Some(|| Val::Int(0)), skip_if = Some(|v| matches!(v, Val::Int(0)));
    m: Probe<u8>, "m";
    v: Vec<Probe<u8>>, "v", default = Some(|| Val::Seq(vec![])),
        skip_if = Some(|v| matches!(v, Val::Seq(x) if x.is_empty()));
});

#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals)]
pub struct SkipFlat {
    a: Option<u8>,
    #[deser(flatten)]
    inner: Opts,
    #[deser(flatten, skip_serializing_if = "inner_empty")]
    second: FlatInner,
    z: Option<Probe<u8>>,
}
sim_struct!(SkipFlat, "SkipFlat", {
    a: Option<u8>, "a";
    inner: Opts, "inner", flatten = true;
    second: FlatInner, "second", flatten = true, skip_if = Some(|v| matches!(
        v, Val::Struct(f) if matches!(&f[0].1, Val::Seq(x) if x.is_empty())));
    z: Option<Probe<u8>>, "z";
}, skip_optionals = true);

/// What may be left out comes first.
#[derive(Serialize, Deserialize)]
pub struct SkipFirst {
    #[deser(flatten, skip_serializing_if = "inner_empty")]
    first: FlatInner,
    n: Probe<u8>,
    #[deser(flatten)]
    last: Opts,
}
sim_struct!(SkipFirst, "SkipFirst", {
    first: FlatInner, "first", flatten = true, skip_if = Some(|v| matches!(
        v, Val::Struct(f) if matches!(&f[0].1, Val::Seq(x) if x.is_empty())));
    n: Probe<u8>, "n";
    last: Opts, "last", flatten = true;
});

/// Bytes in fields.
#[derive(Serialize, Deserialize)]
pub struct Blobs {
    a: Vec<u8>,
    b: Option<Vec<u8>>,
    c: [u8; 2],
    d: Probe<Vec<u8>>,
    #[deser(default)]
    e: Vec<u8>,
}
sim_struct!(Blobs, "Blobs", {
    a: Vec<u8>, "a";
    b: Option<Vec<u8>>, "b";
    c: [u8; 2], "c";
    d: Probe<Vec<u8>>, "d";
    e: Vec<u8>, "e", default = Some(|| Val::Bytes(vec![]));
});

/// Values of these do not always come back: required fields are left out, or there are two fields
/// of one name.
pub fn is_lossy(name: &str) -> bool {
    name.contains("SkipFlat") || name.contains("SkipFirst") || name.contains("Shadow")
}

#[derive(Serialize, Deserialize)]
pub struct Tree {
    v: Probe<u32>,
    pub kids: Vec<Tree>,
}
impl Tree {
    pub fn leaf() -> Tree {
        Tree {
            v: Probe::new(5),
            kids: Vec::new(),
        }
    }
}
impl Sim for Tree {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "Tree",
            fields: vec![
                Field::new("v", <Probe<u32>>::schema()),
                Field::new("kids", Schema::Vec(Box::new(Schema::Lazy(Tree::schema)))),
            ],
            default: None,
            skip_optionals: false,
        }))
    }
    fn gen(g: &mut Gen) -> Self {
        let v = Sim::gen(g);
        let mut kids = Vec::new();
        if g.deep > 0 {
            g.deep -= 1;
            kids.push(Tree::gen(g));
        }
        kids.extend(<Vec<Tree>>::gen(g));
        Tree { v, kids }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![("v", self.v.norm()), ("kids", self.kids.norm())])
    }
}

#[derive(Serialize, Deserialize)]
pub struct List {
    v: Probe<u8>,
    pub next: Option<Box<List>>,
}
impl List {
    pub fn leaf() -> List {
        List {
            v: Probe::new(5),
            next: None,
        }
    }
}
impl Sim for List {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "List",
            fields: vec![
                Field::new("v", <Probe<u8>>::schema()),
                Field::new(
                    "next",
                    Schema::Opt(Box::new(Schema::Wrap(Box::new(Schema::Lazy(List::schema))))),
                ),
            ],
            default: None,
            skip_optionals: false,
        }))
    }
    fn gen(g: &mut Gen) -> Self {
        let v = Sim::gen(g);
        if g.deep > 0 {
            g.deep -= 1;
            return List {
                v,
                next: Some(Box::new(List::gen(g))),
            };
        }
        List {
            v,
            next: Sim::gen(g),
        }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![("v", self.v.norm()), ("next", self.next.norm())])
    }
}

/// Sequences in sequences.
#[derive(Serialize, Deserialize)]
pub struct Nest(Vec<Nest>);
impl Sim for Nest {
    fn schema() -> Schema {
        Schema::Wrap(Box::new(Schema::Vec(Box::new(Schema::Lazy(Nest::schema)))))
    }
    fn gen(g: &mut Gen) -> Self {
        let mut rv = Vec::new();
        if g.deep > 0 {
            g.deep -= 1;
            rv.push(Nest::gen(g));
        }
        rv.extend(<Vec<Nest>>::gen(g));
        Nest(rv)
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

/// Maps in maps.
#[derive(Serialize, Deserialize)]
pub struct MapNest(BTreeMap<String, MapNest>);
impl Sim for MapNest {
    fn schema() -> Schema {
        Schema::Wrap(Box::new(Schema::Map(
            "BTreeMap",
            Box::new(Schema::Str),
            Box::new(Schema::Lazy(MapNest::schema)),
        )))
    }
    fn gen(g: &mut Gen) -> Self {
        let mut rv = BTreeMap::new();
        if g.deep > 0 {
            g.deep -= 1;
            rv.insert("d".to_string(), MapNest::gen(g));
        }
        rv.extend(<BTreeMap<String, MapNest>>::gen(g));
        MapNest(rv)
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

#[derive(Serialize, Deserialize)]
pub struct NewVec(Vec<Probe<u8>>);
sim_newtype!(NewVec, Vec<Probe<u8>>);
#[derive(Serialize, Deserialize)]
pub struct NewOpt(Option<Probe<String>>);
sim_newtype!(NewOpt, Option<Probe<String>>);
#[derive(Serialize, Deserialize)]
pub struct NewNew(BoxedPoint);
sim_newtype!(NewNew, BoxedPoint);
#[derive(Serialize, Deserialize)]
pub struct NewProbe(Probe<Vec<Probe<u16>>>);
sim_newtype!(NewProbe, Probe<Vec<Probe<u16>>>);

#[derive(Serialize, Deserialize)]
pub struct Big {
    id: Probe<u64>,
    color: Color,
    map: BTreeMap<String, Vec<Probe<i64>>>,
    pair: (Probe<u8>, [Probe<String>; 2]),
    list: Vec<Point>,
    opt: Option<Box<Flat1>>,
    set: BTreeSet<Probe<u16>>,
    f: f64,
}
sim_struct!(Big, "Big", {
    id: Probe<u64>, "id";
    color: Color, "color";
    map: BTreeMap<String, Vec<Probe<i64>>>, "map";
    pair: (Probe<u8>, [Probe<String>; 2]), "pair";
    list: Vec<Point>, "list";
    opt: Option<Box<Flat1>>, "opt";
    set: BTreeSet<Probe<u16>>, "set";
    f: f64, "f";
});

// ---------------------------------------------------------------- naming conventions

macro_rules! renamed {
    ($($ty:ident $en:ident $rule:literal: $f1:literal $f2:literal $f3:literal, $v1:literal $v2:literal $v3:literal;)*) => {$(
        #[derive(Serialize, Deserialize)]
        #[deser(rename_all = $rule)]
        pub struct $ty {
            first_name: Probe<u8>,
            a_2b_cd: Option<$en>,
            v: u8,
            #[deser(rename = "as_is", alias = "As_Was")]
            other_one: Option<u8>,
        }
        sim_struct!($ty, stringify!($ty), {
            first_name: Probe<u8>, $f1;
            a_2b_cd: Option<$en>, $f2;
            v: u8, $f3;
            other_one: Option<u8>, "as_is", aliases = &["As_Was"];
        });

        #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[deser(rename_all = $rule)]
        pub enum $en {
            VeryLow,
            #[deser(alias = "HTTP_2", alias = "h2")]
            HttpV2,
            X,
            #[deser(rename = "As_is")]
            OtherOne,
        }
        sim_enum!($en, {
            VeryLow, $v1, [];
            HttpV2, $v2, ["HTTP_2", "h2"];
            X, $v3, [];
            OtherOne, "As_is", [];
        });
    )*};
}

renamed! {
    RnLower EnLower "lowercase": "first_name" "a_2b_cd" "v", "verylow" "httpv2" "x";
    RnUpper EnUpper "UPPERCASE": "FIRST_NAME" "A_2B_CD" "V", "VERYLOW" "HTTPV2" "X";
    RnPascal EnPascal "PascalCase": "FirstName" "A2bCd" "V", "VeryLow" "HttpV2" "X";
    RnCamel EnCamel "camelCase": "firstName" "a2bCd" "v", "veryLow" "httpV2" "x";
    RnSnake EnSnake "snake_case": "first_name" "a_2b_cd" "v", "very_low" "http_v2" "x";
    RnScream EnScream "SCREAMING_SNAKE_CASE": "FIRST_NAME" "A_2B_CD" "V", "VERY_LOW" "HTTP_V2" "X";
    RnKebab EnKebab "kebab-case": "first-name" "a-2b-cd" "v", "very-low" "http-v2" "x";
    RnScrKeb EnScrKeb "SCREAMING-KEBAB-CASE": "FIRST-NAME" "A-2B-CD" "V", "VERY-LOW" "HTTP-V2" "X";
}

#[derive(Serialize, Deserialize)]
pub struct RawNames {
    r#type: Probe<u8>,
    r#fn: Option<u8>,
    #[deser(rename = "r#if")]
    r#if: (),
    key: u8,
    slot: Vec<u16>,
    index: u8,
    data: u8,
}
sim_struct!(RawNames, "RawNames", {
    r#type: Probe<u8>, "type";
    r#fn: Option<u8>, "fn";
    r#if: (), "r#if";
    key: u8, "key";
    slot: Vec<u16>, "slot";
    index: u8, "index";
    data: u8, "data";
});

// ---------------------------------------------------------------- type parameters

#[derive(Serialize, Deserialize)]
pub struct Generic<T> {
    g1: T,
    g2: Vec<T>,
    #[deser(alias = "drei")]
    g3: Option<T>,
}
impl<T: Sim> Sim for Generic<T> {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "Generic",
            fields: vec![
                Field::new("g1", T::schema()),
                Field::new("g2", <Vec<T>>::schema()),
                Field {
                    aliases: &["drei"],
                    ..Field::new("g3", <Option<T>>::schema())
                },
            ],
            default: None,
            skip_optionals: false,
        }))
    }
    fn gen(g: &mut Gen) -> Self {
        Generic {
            g1: Sim::gen(g),
            g2: Sim::gen(g),
            g3: Sim::gen(g),
        }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![
            ("g1", self.g1.norm()),
            ("g2", self.g2.norm()),
            ("g3", self.g3.norm()),
        ])
    }
}

#[derive(Serialize, Deserialize)]
pub struct GenFlat<T> {
    #[deser(flatten)]
    inner: Generic<T>,
    own: u8,
}
impl<T: Sim> Sim for GenFlat<T> {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "GenFlat",
            fields: vec![
                Field {
                    flatten: true,
                    ..Field::new("inner", <Generic<T>>::schema())
                },
                Field::new("own", Schema::Int { min: 0, max: 255, name: "u8" }),
            ],
            default: None,
            skip_optionals: false,
        }))
    }
    fn gen(g: &mut Gen) -> Self {
        GenFlat {
            inner: Sim::gen(g),
            own: Sim::gen(g),
        }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![("inner", self.inner.norm()), ("own", self.own.norm())])
    }
}

#[derive(Serialize, Deserialize)]
pub struct GenNew<T>(T);
impl<T: Sim> Sim for GenNew<T> {
    fn schema() -> Schema {
        Schema::Wrap(Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        GenNew(Sim::gen(g))
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

fn zero(schema: &Schema) -> Val {
    match schema {
        Schema::Probe(s) => zero(s),
        Schema::Int { .. } => Val::Int(0),
        Schema::Opt(_) => Val::None,
        _ => unreachable!(),
    }
}

#[derive(Serialize, Deserialize, Default)]
#[deser(default)]
pub struct GenDef<T: Default> {
    a: T,
    b: Option<u8>,
    #[deser(default)]
    c: Vec<T>,
}
impl<T: Sim + Default> Sim for GenDef<T> {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "GenDef",
            fields: vec![
                Field::new("a", T::schema()),
                Field::new("b", <Option<u8>>::schema()),
                Field {
                    default: Some(|| Val::Seq(vec![])),
                    ..Field::new("c", <Vec<T>>::schema())
                },
            ],
            default: Some(|| {
                Val::Struct(vec![
                    ("a", zero(&T::schema())),
                    ("b", Val::None),
                    ("c", Val::Seq(vec![])),
                ])
            }),
            skip_optionals: false,
        }))
    }
    fn gen(g: &mut Gen) -> Self {
        GenDef {
            a: Sim::gen(g),
            b: Sim::gen(g),
            c: Sim::gen(g),
        }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![
            ("a", self.a.norm()),
            ("b", self.b.norm()),
            ("c", self.c.norm()),
        ])
    }
}

#[derive(Serialize, Deserialize)]
pub struct Sized_<const M: usize> {
    arr: [Probe<u8>; M],
    raw: [u16; M],
}
impl<const M: usize> Sim for Sized_<M> {
    fn schema() -> Schema {
        Schema::Struct(Arc::new(StructSchema {
            name: "Sized_",
            fields: vec![
                Field::new("arr", <[Probe<u8>; M]>::schema()),
                Field::new("raw", <[u16; M]>::schema()),
            ],
            default: None,
            skip_optionals: false,
        }))
    }
    fn gen(g: &mut Gen) -> Self {
        Sized_ {
            arr: Sim::gen(g),
            raw: Sim::gen(g),
        }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![("arr", self.arr.norm()), ("raw", self.raw.norm())])
    }
}

// ---------------------------------------------------------------- combinations of attributes

/// A default for the container, with something flattened in it.
#[derive(Serialize, Deserialize)]
#[deser(default, rename_all = "kebab-case")]
pub struct DefFlat {
    one_a: Probe<u8>,
    #[deser(flatten)]
    in_ner: FlatInner,
    #[deser(default = "mk_string", alias = "ctwo")]
    c_two: Probe<String>,
    #[deser(rename = "Dee")]
    d_d: Vec<u16>,
}
impl Default for DefFlat {
    fn default() -> Self {
        core::cb_user(0);
        DefFlat {
            one_a: Probe::new(11),
            in_ner: FlatInner {
                ia: vec![Probe::new(9)],
                ib: Some(8),
                ic: Probe::new(7),
            },
            c_two: Probe::new("unused".into()),
            d_d: vec![1, 2],
        }
    }
}
sim_struct!(DefFlat, "DefFlat", {
    one_a: Probe<u8>, "one-a";
    in_ner: FlatInner, "in-ner", flatten = true;
    c_two: Probe<String>, "c-two", aliases = &["ctwo"], default = Some(|| Val::Str("made up".into()));
    d_d: Vec<u16>, "Dee";
}, default = Some(|| Val::Struct(vec![
    ("one-a", Val::Int(11)),
    ("in-ner", Val::None),
    ("c-two", Val::None),
    ("Dee", Val::Seq(vec![Val::Int(1), Val::Int(2)])),
])));

/// Many flattened ones, names which occur on several levels.
#[derive(Serialize, Deserialize)]
pub struct Shadow {
    #[deser(flatten)]
    p: Point,
    x: Probe<u8>,
    #[deser(flatten)]
    q: ShadowInner,
}
sim_struct!(Shadow, "Shadow", {
    p: Point, "p", flatten = true;
    x: Probe<u8>, "x";
    q: ShadowInner, "q", flatten = true;
});

#[derive(Serialize, Deserialize)]
pub struct ShadowInner {
    #[deser(default)]
    y: Probe<u8>,
    #[deser(alias = "y2")]
    z: Probe<u8>,
    #[deser(default)]
    x: u8,
}
sim_struct!(ShadowInner, "ShadowInner", {
    y: Probe<u8>, "y", default = Some(|| Val::Int(0));
    z: Probe<u8>, "z", aliases = &["y2"];
    x: u8, "x", default = Some(|| Val::Int(0));
});

/// Boxes of some size, which a repeated field replaces.
#[derive(Serialize, Deserialize)]
pub struct Parcels {
    big: Box<[Probe<u8>; 12]>,
    #[deser(default)]
    text: Box<(String, String, Probe<u8>, Probe<String>)>,
    maybe: Option<Box<[u64; 10]>>,
    nested: Box<Box<Point>>,
}
sim_struct!(Parcels, "Parcels", {
    big: Box<[Probe<u8>; 12]>, "big";
    text: Box<(String, String, Probe<u8>, Probe<String>)>, "text", default = Some(|| Val::Seq(vec![
        Val::Str("".into()), Val::Str("".into()), Val::Int(0), Val::Str("".into()),
    ]));
    maybe: Option<Box<[u64; 10]>>, "maybe";
    nested: Box<Box<Point>>, "nested";
});

/// A text for which upper and lower case are equal: values which are equal can differ.
#[derive(Serialize, Deserialize)]
pub struct Fold(Probe<String>);

impl PartialEq for Fold {
    fn eq(&self, other: &Fold) -> bool {
        self.0.value().eq_ignore_ascii_case(other.0.value())
    }
}
impl Eq for Fold {}
impl PartialOrd for Fold {
    fn partial_cmp(&self, other: &Fold) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for Fold {
    fn cmp(&self, other: &Fold) -> std::cmp::Ordering {
        self.0.value().to_ascii_lowercase().cmp(&other.0.value().to_ascii_lowercase())
    }
}
impl std::hash::Hash for Fold {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.0.value().to_ascii_lowercase().hash(state)
    }
}
impl Sim for Fold {
    fn schema() -> Schema {
        Schema::Wrap(Box::new(Schema::Probe(Box::new(Schema::Fold))))
    }
    fn gen(g: &mut Gen) -> Self {
        let mut s = String::gen(g);
        if g.chance(2, 3) {
            s = ["a", "B", "aB", "Ab", "", "AB", "b", "\u{e9}a"][g.draw(8) as usize].to_string();
        }
        Fold(Probe::new(s))
    }
    fn norm(&self) -> Val {
        match self.0.norm() {
            Val::Probe(id, v) => match *v {
                Val::Str(s) => Val::Probe(id, Box::new(Val::Fold(s))),
                v => v,
            },
            v => v,
        }
    }
}

/// A value with a description of its own, which is not the one of its contents.
#[derive(Deserialize)]
pub struct Titled<const N: usize, T>(T);

const TITLES: [Option<&str>; 8] = [
    None,
    Some(""),
    Some("Vec"),
    Some("slice"),
    Some("vec"),
    Some("Two Words {}"),
    Some("\"Ü\t\""),
    Some("[: ,"),
];

struct Title(usize);

impl deser::Descriptor for Title {
    fn name(&self) -> Option<&str> {
        TITLES[self.0]
    }
}

impl<const N: usize, T: Serialize> Serialize for Titled<N, T> {
    fn descriptor(&self) -> &dyn deser::Descriptor {
        const ALL: [Title; 8] = [
            Title(0),
            Title(1),
            Title(2),
            Title(3),
            Title(4),
            Title(5),
            Title(6),
            Title(7),
        ];
        static STATICS: [Title; 8] = ALL;
        &STATICS[N]
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        self.0.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.0.finish(state)
    }
    fn is_optional(&self) -> bool {
        self.0.is_optional()
    }
}

impl<const N: usize, T: Sim> Sim for Titled<N, T> {
    fn schema() -> Schema {
        Schema::Named(TITLES[N], Box::new(T::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        Titled(T::gen(g))
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

/// Names which are not identifiers.
#[derive(Serialize, Deserialize)]
#[deser(rename = "Odd \"Names\"")]
pub struct OddNames {
    #[deser(rename = "")]
    nothing: Probe<u8>,
    #[deser(rename = "\"q\\u0041\\")]
    quoted: Option<u8>,
    #[deser(rename = "\n\t\u{0}\u{7f}", alias = "\u{1f}", alias = " ")]
    control: Probe<u8>,
    #[deser(rename = "日本é😀", alias = "日本e\u{301}😀")]
    unicode: u8,
    #[deser(rename = "a.b[0]/c: {}", alias = "0", alias = "null")]
    path: Probe<u8>,
    #[deser(
        rename = "a very long name, a very long name, a very long name, a very long name, a very long name, a very long name, a very long name!"
    )]
    long: u8,
    #[deser(alias = "__key", alias = "slot")]
    key: u8,
}
sim_struct!(OddNames, "Odd \"Names\"", {
    nothing: Probe<u8>, "";
    quoted: Option<u8>, "\"q\\u0041\\";
    control: Probe<u8>, "\n\t\u{0}\u{7f}", aliases = &["\u{1f}", " "];
    unicode: u8, "日本é😀", aliases = &["日本e\u{301}😀"];
    path: Probe<u8>, "a.b[0]/c: {}", aliases = &["0", "null"];
    long: u8, "a very long name, a very long name, a very long name, a very long name, a very long name, a very long name, a very long name!";
    key: u8, "key", aliases = &["__key", "slot"];
});

#[derive(Serialize, Deserialize)]
pub struct OddFlat {
    #[deser(default)]
    slot: Probe<u8>,
    #[deser(flatten)]
    inner: Box<OddInner>,
    #[deser(flatten)]
    other: GenFlat<Probe<u8>>,
    #[deser(flatten)]
    data: FlatInner,
}
sim_struct!(OddFlat, "OddFlat", {
    slot: Probe<u8>, "slot", default = Some(|| Val::Int(0));
    inner: Box<OddInner>, "inner", flatten = true;
    other: GenFlat<Probe<u8>>, "other", flatten = true;
    data: FlatInner, "data", flatten = true;
});

#[derive(Serialize, Deserialize)]
pub struct OddInner {
    #[deser(rename = "")]
    nothing: Option<Probe<u8>>,
    #[deser(alias = "\\")]
    index: u8,
    #[deser(alias = "é")]
    value: Vec<OddEnum>,
}
sim_struct!(OddInner, "OddInner", {
    nothing: Option<Probe<u8>>, "";
    index: u8, "index", aliases = &["\\"];
    value: Vec<OddEnum>, "value", aliases = &["é"];
});

#[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum OddEnum {
    #[deser(rename = "", alias = "''")]
    Nothing,
    #[deser(rename = "\"\n\"")]
    Quoted,
    #[deser(rename = "😀", alias = "Quoted", alias = "Nothing")]
    Smile,
    Self_,
    #[deser(alias = "self")]
    Null,
}
sim_enum!(OddEnum, {
    Nothing, "", ["''"];
    Quoted, "\"\n\"", [];
    Smile, "😀", ["Quoted", "Nothing"];
    Self_, "Self_", [];
    Null, "Null", ["self"];
});

/// Everything can be left out.
#[derive(Serialize, Deserialize)]
#[deser(skip_serializing_optionals, default)]
pub struct AllOptional {
    a: Option<Probe<u8>>,
    b: NewOpt,
    #[deser(skip_serializing_if = "is_zero")]
    c: u32,
    d: Option<Option<u8>>,
    e: Box<()>,
}
impl Default for AllOptional {
    fn default() -> Self {
        core::cb_user(0);
        AllOptional {
            a: None,
            b: NewOpt(None),
            c: 0,
            d: None,
            e: Box::new(()),
        }
    }
}
sim_struct!(AllOptional, "AllOptional", {
    a: Option<Probe<u8>>, "a";
    b: NewOpt, "b";
    c: u32, "c", skip_if = Some(|v| matches!(v, Val::Int(0)));
    d: Option<Option<u8>>, "d";
    e: Box<()>, "e";
}, skip_optionals = true, default = Some(|| Val::Struct(vec![
    ("a", Val::None),
    ("b", Val::None),
    ("c", Val::Int(0)),
    ("d", Val::None),
    ("e", Val::Unit),
])));

/// More fields than any of the others.
#[derive(Serialize, Deserialize)]
pub struct Wide {
    f01: u8, f02: i8, f03: u16, f04: i16, f05: u32, f06: i32, f07: u64, f08: i64,
    f09: usize, f10: isize, f11: f32, f12: f64, f13: bool, f14: char, f15: String, f16: (),
    f17: Option<bool>, f18: Vec<bool>, f19: Probe<u8>, f20: Probe<String>,
}
sim_struct!(Wide, "Wide", {
    f01: u8, "f01"; f02: i8, "f02"; f03: u16, "f03"; f04: i16, "f04"; f05: u32, "f05";
    f06: i32, "f06"; f07: u64, "f07"; f08: i64, "f08"; f09: usize, "f09"; f10: isize, "f10";
    f11: f32, "f11"; f12: f64, "f12"; f13: bool, "f13"; f14: char, "f14"; f15: String, "f15";
    f16: (), "f16"; f17: Option<bool>, "f17"; f18: Vec<bool>, "f18"; f19: Probe<u8>, "f19";
    f20: Probe<String>, "f20";
});

// ---------------------------------------------------------------- hand written ones

/// Hands out references of all kinds.
#[derive(Deserialize)]
pub struct RefSeq(Vec<Probe<u16>>);

struct RefSeqEmitter<'a> {
    items: &'a [Probe<u16>],
    index: usize,
}

impl<'a> SeqEmitter for RefSeqEmitter<'a> {
    fn next(&mut self, _state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        let index = self.index;
        self.index += 1;
        Ok(self.items.get(index).map(|item| match index % 4 {
            0 => SerializeHandle::Borrowed(item),
            1 => SerializeHandle::boxed(item),
            2 => SerializeHandle::boxed(Box::new(&self.items[index])),
            _ => SerializeHandle::boxed(Box::new(Box::new(item))),
        }))
    }
}

impl Serialize for RefSeq {
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Seq(Box::new(RefSeqEmitter {
            items: &self.0,
            index: 0,
        })))
    }
}

impl Sim for RefSeq {
    fn schema() -> Schema {
        Schema::Named(None, Box::new(<Vec<Probe<u16>>>::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        RefSeq(Sim::gen(g))
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

/// Serializes with slices and cows created on the fly.
#[derive(Deserialize)]
pub struct Borrowy {
    a: String,
    b: Vec<Probe<u16>>,
    c: String,
    d: Probe<u8>,
}

struct BorrowyEmitter<'a> {
    data: &'a Borrowy,
    index: usize,
}

impl<'a> StructEmitter for BorrowyEmitter<'a> {
    fn next(
        &mut self,
        _state: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        self.index += 1;
        Ok(match self.index {
            1 => Some((
                Cow::Owned("a".to_string()),
                SerializeHandle::boxed(Cow::Borrowed(&self.data.a[..])),
            )),
            2 => Some((
                Cow::Borrowed("b"),
                SerializeHandle::boxed(&self.data.b[..]),
            )),
            3 => Some((
                Cow::Owned("c".to_string()),
                SerializeHandle::boxed(&self.data.c[..]),
            )),
            4 => Some((Cow::Borrowed("d"), SerializeHandle::to(&self.data.d))),
            _ => None,
        })
    }
}

impl Serialize for Borrowy {
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Struct(Box::new(BorrowyEmitter {
            data: self,
            index: 0,
        })))
    }
}

impl Sim for Borrowy {
    fn schema() -> Schema {
        let named = |name, s| Schema::Named(Some(name), Box::new(s));
        Schema::Named(
            None,
            Box::new(Schema::Struct(Arc::new(StructSchema {
                name: "Borrowy",
                fields: vec![
                    Field::new("a", named("str", Schema::Str)),
                    Field::new("b", named("slice", <Vec<Probe<u16>>>::schema())),
                    Field::new("c", named("str", Schema::Str)),
                    Field::new("d", <Probe<u8>>::schema()),
                ],
                default: None,
                skip_optionals: false,
            }))),
        )
    }
    fn gen(g: &mut Gen) -> Self {
        Borrowy {
            a: Sim::gen(g),
            b: Sim::gen(g),
            c: Sim::gen(g),
            d: Sim::gen(g),
        }
    }
    fn norm(&self) -> Val {
        Val::Struct(vec![
            ("a", self.a.norm()),
            ("b", self.b.norm()),
            ("c", self.c.norm()),
            ("d", self.d.norm()),
        ])
    }
}

/// A view made of nothing but references, as programs derive it for data they don't own.
#[derive(Serialize)]
#[deser(skip_serializing_optionals, rename = "View")]
struct RefView<'a> {
    a: &'a Option<Probe<u8>>,
    b: Option<&'a Probe<u16>>,
    c: &'a &'a (),
    #[deser(rename = "e")]
    text: &'a str,
    f: &'a Box<Option<u8>>,
    g: Option<Cow<'a, str>>,
    h: &'a [Probe<u16>],
    #[deser(flatten)]
    inner: &'a FlatInner,
    z: (&'a Probe<u8>, &'a [Probe<u16>; 2]),
}

#[derive(Deserialize)]
#[deser(rename = "View")]
pub struct RefData {
    a: Option<Probe<u8>>,
    b: Option<Probe<u16>>,
    #[deser(default)]
    c: (),
    e: String,
    #[deser(default)]
    f: Box<Option<u8>>,
    g: Option<String>,
    h: Vec<Probe<u16>>,
    #[deser(flatten)]
    inner: FlatInner,
    z: (Probe<u8>, [Probe<u16>; 2]),
}

/// Makes the view while it is serialized.
#[derive(Deserialize)]
pub struct Refs {
    first: RefData,
    #[deser(rename = "SecÖnd.\"\n")]
    second: Option<Box<RefData>>,
}

struct RefsEmitter<'a> {
    data: &'a Refs,
    index: usize,
}

impl RefData {
    fn view(&self) -> RefView<'_> {
        RefView {
            a: &self.a,
            b: self.b.as_ref(),
            c: &&(),
            text: &self.e,
            f: &self.f,
            g: self.g.as_deref().map(Cow::Borrowed),
            h: &self.h,
            inner: &self.inner,
            z: (&self.z.0, &self.z.1),
        }
    }
}

impl<'a> StructEmitter for RefsEmitter<'a> {
    fn next(
        &mut self,
        _state: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        self.index += 1;
        Ok(match self.index {
            1 => Some((
                Cow::Borrowed("first"),
                SerializeHandle::boxed(self.data.first.view()),
            )),
            2 => Some((
                Cow::Owned("SecÖnd.\"\n".to_string()),
                SerializeHandle::boxed(Box::new(self.data.second.as_ref().map(|x| x.view()))),
            )),
            _ => None,
        })
    }
}

impl Serialize for Refs {
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Struct(Box::new(RefsEmitter {
            data: self,
            index: 0,
        })))
    }
}

impl Sim for Refs {
    fn schema() -> Schema {
        let named = |name, s| Schema::Named(Some(name), Box::new(s));
        let slice = |s| named("slice", s);
        let view = Schema::Struct(Arc::new(StructSchema {
            name: "View",
            fields: vec![
                Field::new("a", <Option<Probe<u8>>>::schema()),
                Field::new("b", <Option<Probe<u16>>>::schema()),
                Field {
                    default: Some(|| Val::Unit),
                    ..Field::new("c", Schema::Unit)
                },
                Field::new("e", named("str", Schema::Str)),
                Field {
                    default: Some(|| Val::None),
                    ..Field::new("f", <Option<u8>>::schema())
                },
                Field::new("g", <Option<String>>::schema()),
                Field::new("h", slice(<Vec<Probe<u16>>>::schema())),
                Field {
                    flatten: true,
                    ..Field::new("inner", FlatInner::schema())
                },
                Field::new("z", <(Probe<u8>, [Probe<u16>; 2])>::schema()),
            ],
            default: None,
            skip_optionals: true,
        }));
        Schema::Named(
            None,
            Box::new(Schema::Struct(Arc::new(StructSchema {
                name: "Refs",
                fields: vec![
                    Field::new("first", view.clone()),
                    Field::new("SecÖnd.\"\n", Schema::Opt(Box::new(view))),
                ],
                default: None,
                skip_optionals: false,
            }))),
        )
    }
    fn gen(g: &mut Gen) -> Self {
        fn data(g: &mut Gen) -> RefData {
            RefData {
                a: Sim::gen(g),
                b: Sim::gen(g),
                c: (),
                e: Sim::gen(g),
                f: Sim::gen(g),
                g: Sim::gen(g),
                h: Sim::gen(g),
                inner: Sim::gen(g),
                z: Sim::gen(g),
            }
        }
        Refs {
            first: data(g),
            second: if g.draw(2) == 1 {
                Some(Box::new(data(g)))
            } else {
                None
            },
        }
    }
    fn norm(&self) -> Val {
        fn data(d: &RefData) -> Val {
            Val::Struct(vec![
                ("a", d.a.norm()),
                ("b", d.b.norm()),
                ("c", Val::Unit),
                ("e", d.e.norm()),
                ("f", d.f.norm()),
                ("g", d.g.norm()),
                ("h", d.h.norm()),
                ("inner", d.inner.norm()),
                ("z", d.z.norm()),
            ])
        }
        Val::Struct(vec![
            ("first", data(&self.first)),
            (
                "SecÖnd.\"\n",
                match self.second {
                    Some(ref x) => Val::Some(Box::new(data(x))),
                    None => Val::None,
                },
            ),
        ])
    }
}

/// Byte slices that are handed out one by one.
#[derive(Deserialize)]
pub struct ByteSlices(Vec<Vec<u8>>);

struct ByteSlicesEmitter<'a>(std::slice::Iter<'a, Vec<u8>>);

impl<'a> SeqEmitter for ByteSlicesEmitter<'a> {
    fn next(&mut self, _state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.0.next().map(|x| SerializeHandle::boxed(&x[..])))
    }
}

impl Serialize for ByteSlices {
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Seq(Box::new(ByteSlicesEmitter(self.0.iter()))))
    }
}

impl Sim for ByteSlices {
    fn schema() -> Schema {
        Schema::Named(
            None,
            Box::new(Schema::Vec(Box::new(Schema::Named(
                Some("bytes"),
                Box::new(<Vec<u8>>::schema()),
            )))),
        )
    }
    fn gen(g: &mut Gen) -> Self {
        ByteSlices(Sim::gen(g))
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

/// A map emitter which owns what it hands out.
#[derive(Deserialize)]
pub struct HandMap(BTreeMap<String, Probe<u16>>);

struct HandMapEmitter<'a> {
    iter: std::collections::btree_map::Iter<'a, String, Probe<u16>>,
    key: String,
    value: Option<&'a Probe<u16>>,
}

impl<'a> MapEmitter for HandMapEmitter<'a> {
    fn next_key(&mut self, _state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        match self.iter.next() {
            Some((k, v)) => {
                self.key = k.clone();
                self.value = Some(v);
                // borrows from the emitter
                Ok(Some(SerializeHandle::to(&self.key)))
            }
            None => Ok(None),
        }
    }
    fn next_value(&mut self, _state: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(SerializeHandle::boxed(Box::new(self.value.take().unwrap())))
    }
}

impl Serialize for HandMap {
    fn serialize(&self, _state: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Map(Box::new(HandMapEmitter {
            iter: self.0.iter(),
            key: String::new(),
            value: None,
        })))
    }
}

impl Sim for HandMap {
    fn schema() -> Schema {
        Schema::Named(None, Box::new(<BTreeMap<String, Probe<u16>>>::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        HandMap(Sim::gen(g))
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

// ---------------------------------------------------------------- erasure

pub trait DynVal: Send + Sync {
    fn ser(&self) -> &dyn Serialize;
    fn val(&self) -> Val;
    /// Calls with the value behind some kind of reference.
    fn with_ref(&mut self, how: u64, f: &mut dyn FnMut(&dyn Serialize));
}

impl<T: Sim> DynVal for T {
    fn ser(&self) -> &dyn Serialize {
        self
    }
    fn val(&self) -> Val {
        Sim::norm(self)
    }
    fn with_ref(&mut self, how: u64, f: &mut dyn FnMut(&dyn Serialize)) {
        match how {
            0 => f(self),
            1 => f(&&*self),
            2 => {
                let this: &mut T = self;
                f(&this)
            }
            3 => f(&Box::new(&*self)),
            _ => f(&&&*self),
        }
    }
}

pub trait DynSlot {
    fn sink(&mut self) -> SinkHandle<'_>;
    fn driver(&mut self) -> DeserializeDriver<'_>;
    fn take(&mut self) -> Option<Box<dyn DynVal>>;
    fn peek(&self) -> Option<Val>;
    /// Puts some value there.
    fn fill(&mut self, gen: &mut Gen);
}

struct Slot<T>(Option<T>);

impl<T: Sim> DynSlot for Slot<T> {
    fn sink(&mut self) -> SinkHandle<'_> {
        T::deserialize_into(&mut self.0)
    }
    fn driver(&mut self) -> DeserializeDriver<'_> {
        DeserializeDriver::new(&mut self.0)
    }
    fn take(&mut self) -> Option<Box<dyn DynVal>> {
        self.0.take().map(|x| Box::new(x) as Box<dyn DynVal>)
    }
    fn peek(&self) -> Option<Val> {
        self.0.as_ref().map(|x| x.norm())
    }
    fn fill(&mut self, gen: &mut Gen) {
        self.0 = Some(T::gen(gen));
    }
}

pub struct TypeOps {
    pub name: &'static str,
    pub schema: fn() -> Schema,
    pub gen: fn(&mut Gen) -> Box<dyn DynVal>,
    pub slot: fn() -> Box<dyn DynSlot>,
    pub from_json: fn(&[u8]) -> Result<Box<dyn DynVal>, Error>,
    pub from_json_str: fn(&str) -> Result<Box<dyn DynVal>, Error>,
    /// Asks the same reader again and again.
    pub from_json_more: fn(&[u8], &mut dyn FnMut(Result<Box<dyn DynVal>, Error>) -> bool),
}

pub fn ops<T: Sim>(name: &'static str) -> TypeOps {
    TypeOps {
        name,
        schema: T::schema,
        gen: |g| Box::new(T::gen(g)),
        slot: || Box::new(Slot::<T>(None)),
        from_json: |b| {
            deser_json::Deserializer::new(b)
                .deserialize::<T>()
                .map(|x| Box::new(x) as Box<dyn DynVal>)
        },
        from_json_more: |b, f| {
            let mut reader = deser_json::Deserializer::new(b);
            loop {
                let rv = reader
                    .deserialize::<T>()
                    .map(|x| Box::new(x) as Box<dyn DynVal>);
                if !f(rv) {
                    break;
                }
            }
        },
        from_json_str: |s| {
            deser_json::from_str::<T>(s).map(|x| Box::new(x) as Box<dyn DynVal>)
        },
    }
}

macro_rules! catalog {
    ($($ty:ty),* $(,)?) => {
        pub fn catalog() -> Vec<TypeOps> {
            vec![$(ops::<$ty>(stringify!($ty))),*]
        }
    };
}

catalog! {
    Probe<u32>,
    Vec<Probe<u8>>,
    Vec<Probe<String>>,
    BTreeMap<String, Probe<u64>>,
    Point,
    Opts,
    [Probe<String>; 3],
    (Probe<u8>, Probe<String>),
    Flat1,
    Flat2,
    FlatDeep,
    Defaults,
    ContDefault,
    FnDefault,
    Alias,
    Camel,
    SkipOpts,
    SkipIf,
    SkipFlat,
    Tree,
    List,
    Nest,
    MapNest,
    Big,
    NewVec,
    NewOpt,
    NewNew,
    NewProbe,
    BoxedPoint,
    RefSeq,
    Borrowy,
    Refs,
    ByteSlices,
    HandMap,
    Color,
    Level,
    Empty,
    Option<Probe<String>>,
    Option<Vec<Probe<u8>>>,
    Option<Box<Point>>,
    Box<Probe<u8>>,
    Box<Vec<Box<Probe<u8>>>>,
    HashMap<String, Probe<u8>, SimState>,
    HashMap<String, Vec<Probe<u8>>>,
    HashMap<u16, Probe<String>, SimState>,
    HashSet<Probe<String>>,
    BTreeSet<Probe<u32>>,
    BTreeMap<(u8, bool), Probe<u8>>,
    BTreeMap<Probe<String>, Vec<Probe<u8>>>,
    BTreeMap<i32, Point>,
    BTreeMap<u64, Vec<Option<Probe<u8>>>>,
    BTreeMap<bool, Probe<u8>>,
    BTreeMap<char, Probe<u8>>,
    BTreeMap<Color, Vec<Point>>,
    BTreeMap<Vec<u8>, Probe<u8>>,
    BTreeMap<Vec<u16>, BTreeMap<String, u8>>,
    Vec<Vec<Probe<u8>>>,
    Vec<Option<Probe<u16>>>,
    Vec<BTreeMap<String, Vec<Probe<u8>>>>,
    Vec<(Probe<u8>, Probe<u8>)>,
    Vec<[Probe<u16>; 2]>,
    Vec<Color>,
    Vec<Point>,
    Vec<Opts>,
    [Vec<Probe<u8>>; 2],
    [Probe<u8>; 0],
    [Probe<u64>; 1],
    [[Probe<u8>; 2]; 2],
    [Option<Probe<u8>>; 3],
    [Point; 2],
    (Probe<u8>,),
    (Vec<Probe<u8>>, Option<Probe<u8>>, BTreeMap<String, Probe<u8>>),
    (u8, Probe<u8>, String, bool),
    (u8, u16, Probe<u8>, i8, String, bool, char, f64, (), Probe<u8>, Option<u8>, Vec<u8>),
    u8, u16, u32, u64, usize, i8, i16, i32, i64, isize,
    f32, f64, bool, char, String, (),
    RnLower, RnUpper, RnPascal, RnCamel, RnSnake, RnScream, RnKebab, RnScrKeb,
    Vec<EnLower>, EnUpper, EnPascal, EnCamel, EnSnake, EnScream, BTreeMap<EnKebab, u8>, EnScrKeb,
    RawNames,
    Generic<Probe<u8>>,
    Generic<Vec<Probe<u16>>>,
    Generic<Option<u8>>,
    GenFlat<Probe<String>>,
    GenNew<Vec<Probe<u8>>>,
    GenNew<GenNew<Option<Probe<u8>>>>,
    GenDef<Probe<u16>>,
    GenDef<Option<Probe<String>>>,
    Sized_<2>,
    DefFlat,
    Shadow,
    AllOptional,
    Wide,
    Option<Option<Probe<u8>>>,
    Option<(Probe<u8>, u8)>,
    Option<[Probe<u8>; 2]>,
    Option<BTreeMap<String, Probe<u8>>>,
    Option<HashMap<String, Probe<u8>, SimState>>,
    Option<BTreeSet<Probe<u8>>>,
    Option<Color>,
    Option<()>,
    Option<Vec<u8>>,
    Option<NewVec>,
    Box<Option<Probe<u8>>>,
    Box<Box<Point>>,
    Box<[Probe<u8>; 2]>,
    Vec<Box<BTreeSet<Probe<u8>>>>,
    Vec<HashSet<Probe<u8>>>,
    Vec<Option<()>>,
    Vec<Empty>,
    HashMap<Color, Option<Probe<u8>>, SimState>,
    HashMap<(u8, char), Vec<Probe<u8>>, SimState>,
    BTreeMap<Option<u8>, Probe<u8>>,
    BTreeMap<[u8; 2], Probe<u8>>,
    BTreeMap<String, Option<()>>,
    BTreeMap<BTreeSet<u16>, Probe<u8>>,
    BTreeMap<i64, BTreeMap<u8, Probe<u8>>>,
    HashSet<u16>,
    BTreeSet<(Probe<u8>, bool)>,
    BTreeSet<Color>,
    [Probe<u8>; 40],
    [(Probe<u8>, Probe<u8>); 3],
    [BTreeMap<String, Probe<u8>>; 2],
    [[u8; 2]; 3],
    (Probe<u8>, u8, (Probe<u8>, [Probe<u8>; 1]), Vec<u8>, Option<Probe<u8>>),
    (u8, u8, Probe<u8>, u8, u8, Probe<u8>),
    (u8, u8, u8, u8, Probe<u8>, u8, u8),
    (u8, u8, u8, u8, Probe<u8>, u8, u8, Probe<u8>),
    (u8, u8, u8, u8, u8, u8, u8, u8, Probe<u8>),
    (u8, u8, Probe<u8>, u8, u8, u8, u8, u8, u8, Probe<u8>),
    (u8, u8, u8, u8, u8, Probe<u8>, u8, u8, u8, u8, Probe<u8>),
    Vec<u8>, Vec<u32>, Vec<String>, Vec<f64>, Vec<f32>, Vec<bool>, Vec<char>, Vec<()>, Vec<i64>,
    [u8; 4], [u8; 0], [u16; 2],
    BTreeSet<u8>,
    BTreeSet<String>,
    BTreeMap<String, String>,
    BTreeMap<String, f64>,
    Option<u64>,
    Option<f64>,
    OddNames,
    OddFlat,
    (OddEnum, Empty, Probe<OddNames>, Color),
    BTreeMap<OddEnum, Empty>,
    (Empty, RawNames, Empty, ContDefault, Color, Level, Empty, Camel),
    [(Empty, Point, NewProbe, Empty); 2],
    Vec<(Color, Empty, OddEnum, AllOptional)>,
    Dyn,
    Probe<Dyn>,
    Option<Dyn>,
    Vec<Probe<Dyn>>,
    (Dyn, Probe<u8>),
    BTreeMap<MixKey, Probe<u8>>,
    HashMap<MixKey, Probe<u8>, SimState>,
    HashMap<Probe<MixKey>, Vec<Probe<u8>>, SimState>,
    BTreeMap<MixKey, BTreeMap<MixKey, Probe<u8>>>,
    Inside,
    Vec<Inside>,
    Option<Probe<Inside>>,
    HashSet<Fold>,
    BTreeSet<Fold>,
    BTreeMap<Fold, Probe<u8>>,
    HashMap<Fold, Vec<Probe<u8>>, SimState>,
    Vec<HashSet<Fold>>,
    Parcels,
    Box<[Probe<u8>; 40]>,
    BTreeMap<u8, Box<OddNames>>,
    Option<Box<Parcels>>,
    Option<char>, Option<bool>, Option<u8>, Option<i64>, Option<f32>, Option<String>,
    Vec<Option<char>>, Vec<Option<String>>, Vec<Option<bool>>,
    BTreeMap<String, Option<f64>>,
    BTreeMap<u8, bool>, BTreeMap<i8, char>, BTreeMap<char, f32>,
    (char, Option<char>, bool, Option<bool>, f32, Option<f32>, i8),
    [Option<String>; 2], [bool; 3], [char; 2], [f64; 1],
    Box<char>, Box<f64>, Box<String>, Option<Box<u8>>, Option<Box<Option<u8>>>,
    Titled<0, Vec<Probe<u8>>>, Titled<1, Vec<Titled<2, Vec<String>>>>, Titled<3, BTreeMap<String, Probe<u8>>>,
    Titled<2, Point>, Vec<Titled<1, Point>>, Titled<4, (Probe<u8>, Titled<1, [Probe<u8>; 2]>)>,
    Titled<5, BTreeMap<String, Titled<6, BTreeSet<Probe<u8>>>>>, Titled<7, Vec<Titled<0, Opts>>>,
    Titled<1, Option<Titled<6, String>>>,
    BTreeMap<String, Vec<u8>>, BTreeMap<String, [u8; 2]>, Vec<Vec<u8>>, Option<[u8; 3]>,
    SkipFirst, Blobs, Vec<Blobs>,
    Option<Probe<Option<u8>>>, Option<Probe<()>>, Vec<Option<Probe<Option<Probe<u8>>>>>,
    BTreeMap<u8, Option<Probe<()>>>, Probe<Option<Probe<Vec<Probe<()>>>>>,
}

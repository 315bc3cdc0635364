//! The reference model: what values look like as event streams, and which value an event
//! stream stands for.  Written against the documentation, shares no code with deser.
use deser::{Atom, ErrorKind, Event};
use std::cmp::Ordering;
use std::sync::Arc;

// ---------------------------------------------------------------- values

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Str(String),
    Char(char),
    Bytes(Vec<u8>),
    Seq(Vec<Val>),
    /// in iteration order until canonicalised
    Set(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Struct(Vec<(&'static str, Val)>),
    None,
    Some(Box<Val>),
    Enum(&'static str),
    Probe(u32, Box<Val>),
    /// a text for which upper and lower case are equal
    Fold(String),
    /// a value of the hand written dynamic type
    Dyn(Node),
}

fn rank(v: &Val) -> u8 {
    match v {
        Val::Unit => 0,
        Val::Bool(_) => 1,
        Val::Int(_) => 2,
        Val::F32(_) => 3,
        Val::F64(_) => 4,
        Val::Str(_) => 5,
        Val::Char(_) => 6,
        Val::Bytes(_) => 7,
        Val::Seq(_) => 8,
        Val::Set(_) => 9,
        Val::Map(_) => 10,
        Val::Struct(_) => 11,
        Val::None => 12,
        Val::Some(_) => 13,
        Val::Enum(_) => 14,
        Val::Probe(..) => 15,
        Val::Dyn(_) => 16,
        Val::Fold(_) => 17,
    }
}

fn cmp_list(a: &[Val], b: &[Val]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = cmp(x, y);
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}

pub fn cmp(a: &Val, b: &Val) -> Ordering {
    match (a, b) {
        (Val::Probe(_, a), b) => cmp(a, b),
        (a, Val::Probe(_, b)) => cmp(a, b),
        (Val::Bool(a), Val::Bool(b)) => a.cmp(b),
        (Val::Int(a), Val::Int(b)) => a.cmp(b),
        (Val::F32(a), Val::F32(b)) => a.to_bits().cmp(&b.to_bits()),
        (Val::F64(a), Val::F64(b)) => a.to_bits().cmp(&b.to_bits()),
        (Val::Str(a), Val::Str(b)) => a.cmp(b),
        (Val::Fold(a), Val::Fold(b)) => a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase()),
        (Val::Char(a), Val::Char(b)) => a.cmp(b),
        (Val::Dyn(a), Val::Dyn(b)) => format!("{:?}", a).cmp(&format!("{:?}", b)),
        (Val::Bytes(a), Val::Bytes(b)) => a.cmp(b),
        (Val::Enum(a), Val::Enum(b)) => a.cmp(b),
        (Val::Some(a), Val::Some(b)) => cmp(a, b),
        (Val::Seq(a), Val::Seq(b)) => cmp_list(a, b),
        // the order in which the parts came does not matter
        (Val::Set(_), Val::Set(_)) => match (a.canon(), b.canon()) {
            (Val::Set(a), Val::Set(b)) => cmp_list(&a, &b),
            _ => unreachable!(),
        },
        (Val::Map(_), Val::Map(_)) => {
            let (a, b) = match (a.canon(), b.canon()) {
                (Val::Map(a), Val::Map(b)) => (a, b),
                _ => unreachable!(),
            };
            for (x, y) in a.iter().zip(&b) {
                let o = cmp(&x.0, &y.0).then_with(|| cmp(&x.1, &y.1));
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.len().cmp(&b.len())
        }
        (Val::Struct(a), Val::Struct(b)) => {
            for (x, y) in a.iter().zip(b) {
                let o = x.0.cmp(y.0).then_with(|| cmp(&x.1, &y.1));
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.len().cmp(&b.len())
        }
        (a, b) => rank(a).cmp(&rank(b)),
    }
}

impl Val {
    /// Removes the identity of probes and sorts what is unordered.
    pub fn canon(&self) -> Val {
        match self {
            Val::Probe(_, v) => v.canon(),
            Val::Some(v) => Val::Some(Box::new(v.canon())),
            Val::Seq(v) => Val::Seq(v.iter().map(Val::canon).collect()),
            Val::Set(v) => {
                let mut v: Vec<_> = v.iter().map(Val::canon).collect();
                v.sort_by(cmp);
                Val::Set(v)
            }
            Val::Map(v) => {
                let mut v: Vec<_> = v.iter().map(|(k, v)| (k.canon(), v.canon())).collect();
                v.sort_by(|a, b| cmp(&a.0, &b.0));
                Val::Map(v)
            }
            Val::Struct(v) => Val::Struct(v.iter().map(|(k, v)| (*k, v.canon())).collect()),
            other => other.clone(),
        }
    }

    pub fn probes(&self, out: &mut Vec<u32>) {
        match self {
            Val::Probe(id, v) => {
                out.push(*id);
                v.probes(out);
            }
            Val::Some(v) => v.probes(out),
            Val::Seq(v) | Val::Set(v) => v.iter().for_each(|v| v.probes(out)),
            Val::Map(v) => v.iter().for_each(|(k, v)| {
                k.probes(out);
                v.probes(out)
            }),
            Val::Struct(v) => v.iter().for_each(|(_, v)| v.probes(out)),
            _ => {}
        }
    }
}

fn close(a: f64, b: f64, rel: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return false;
    }
    (a - b).abs() <= rel * a.abs().max(b.abs()) || (a - b).abs() < 2e-323
}

/// Compares canonical values.  With `tol` floats can differ in the last digits.
pub fn same(a: &Val, b: &Val, tol: bool) -> bool {
    match (a, b) {
        (Val::F64(x), Val::F64(y)) => {
            if tol {
                close(*x, *y, 1e-15)
            } else {
                x.to_bits() == y.to_bits()
            }
        }
        (Val::F32(x), Val::F32(y)) => {
            if tol {
                let max = f32::MAX as f64;
                if x.is_infinite() != y.is_infinite() {
                    let fin = if x.is_infinite() { *y } else { *x };
                    return (fin.abs() as f64) >= max * 0.999999 && x.signum() == y.signum();
                }
                x == y
                    || (x.is_nan() && y.is_nan())
                    || ((x - y).abs() as f64) <= 1.3e-7 * (x.abs() as f64)
                    || ((x - y).abs() as f64) < 3e-45
            } else {
                x.to_bits() == y.to_bits()
            }
        }
        (Val::Some(a), Val::Some(b)) => same(a, b, tol),
        (Val::Fold(a), Val::Fold(b)) => a == b,
        (Val::Dyn(a), Val::Dyn(b)) => same_node(a, b, tol),
        (Val::Seq(a), Val::Seq(b)) | (Val::Set(a), Val::Set(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b, tol))
        }
        (Val::Map(a), Val::Map(b)) => {
            a.len() == b.len()
                && a.iter()
                    .zip(b)
                    .all(|(a, b)| same(&a.0, &b.0, tol) && same(&a.1, &b.1, tol))
        }
        (Val::Struct(a), Val::Struct(b)) => {
            a.len() == b.len()
                && a.iter()
                    .zip(b)
                    .all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1, tol))
        }
        (a, b) => cmp(a, b) == Ordering::Equal,
    }
}

fn same_node(a: &Node, b: &Node, tol: bool) -> bool {
    match (a, b) {
        (Node::Atom(Atom::F64(x)), Node::Atom(Atom::F64(y))) => {
            same(&Val::F64(*x), &Val::F64(*y), tol)
        }
        (Node::Atom(a), Node::Atom(b)) => a == b,
        (Node::Seq(a), Node::Seq(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_node(a, b, tol))
        }
        (Node::Map(a), Node::Map(b)) => {
            a.len() == b.len()
                && a.iter()
                    .zip(b)
                    .all(|(a, b)| same_node(&a.0, &b.0, tol) && same_node(&a.1, &b.1, tol))
        }
        _ => false,
    }
}

// ---------------------------------------------------------------- schemas

#[derive(Clone)]
pub struct Field {
    pub name: &'static str,
    pub aliases: &'static [&'static str],
    pub schema: Schema,
    /// the value if the field is missing
    pub default: Option<fn() -> Val>,
    pub flatten: bool,
    pub skip_if: Option<fn(&Val) -> bool>,
}

#[derive(Clone)]
pub struct StructSchema {
    pub name: &'static str,
    pub fields: Vec<Field>,
    /// the default of the whole struct
    pub default: Option<fn() -> Val>,
    pub skip_optionals: bool,
}

#[derive(Clone)]
pub enum Schema {
    Unit,
    Bool,
    Int {
        min: i128,
        max: i128,
        name: &'static str,
    },
    F32,
    F64,
    Str,
    Char,
    /// a text for which upper and lower case are equal
    Fold,
    Vec(Box<Schema>),
    Array(usize, Box<Schema>),
    Tuple(Vec<Schema>),
    Set(&'static str, Box<Schema>),
    Map(&'static str, Box<Schema>, Box<Schema>),
    Opt(Box<Schema>),
    /// transparent wrappers: boxes, newtypes
    Wrap(Box<Schema>),
    Probe(Box<Schema>),
    /// serializes with another name, deserializes like the inner one
    Named(Option<&'static str>, Box<Schema>),
    Struct(Arc<StructSchema>),
    Enum(&'static [(&'static str, &'static [&'static str])]),
    /// takes anything, or only simple atoms
    Dyn { any: bool },
    Lazy(fn() -> Schema),
}

impl Schema {
    pub fn is_byte(&self) -> bool {
        matches!(self, Schema::Int { name: "u8", .. })
    }

    /// The name of the descriptor during serialization.
    pub fn ser_name(&self) -> Option<String> {
        Some(
            match self {
                Schema::Unit => "null",
                Schema::Bool => "bool",
                Schema::Int { name, .. } => name,
                Schema::F32 => "f32",
                Schema::F64 => "f64",
                Schema::Str | Schema::Fold => "String",
                Schema::Char => "char",
                Schema::Vec(e) => {
                    if e.is_byte() {
                        "ByteVec"
                    } else {
                        "Vec"
                    }
                }
                Schema::Array(..) => "array",
                Schema::Tuple(_) => "tuple",
                Schema::Set(name, _) => name,
                Schema::Map(name, ..) => name,
                Schema::Opt(_) => "optional",
                Schema::Wrap(s) | Schema::Probe(s) => return s.ser_name(),
                Schema::Named(name, _) => return name.map(|x| x.to_string()),
                Schema::Struct(s) => s.name,
                Schema::Enum(_) | Schema::Dyn { .. } => return None,
                Schema::Lazy(f) => return f().ser_name(),
            }
            .to_string(),
        )
    }

    /// The precision of numbers, and whether something is unordered.
    pub fn ser_traits(&self) -> &'static str {
        match self {
            Schema::Int { name, .. } => match *name {
                "u8" | "i8" => ":8",
                "u16" | "i16" => ":16",
                "u32" | "i32" => ":32",
                _ => ":64",
            },
            Schema::F32 => ":32",
            Schema::F64 => ":64",
            Schema::Set("HashSet", _) | Schema::Map("HashMap", ..) => "~",
            Schema::Wrap(s) | Schema::Probe(s) => s.ser_traits(),
            Schema::Lazy(f) => f().ser_traits(),
            _ => "",
        }
    }

    fn as_struct(&self) -> Arc<StructSchema> {
        match self {
            Schema::Struct(s) => s.clone(),
            Schema::Wrap(s) | Schema::Probe(s) | Schema::Named(_, s) => s.as_struct(),
            Schema::Lazy(f) => f().as_struct(),
            _ => panic!("not a struct"),
        }
    }

    /// Can values of this type be represented in JSON?
    pub fn json_ok(&self) -> bool {
        self.json_ok_at(0)
    }

    fn json_ok_at(&self, depth: u32) -> bool {
        match self {
            Schema::Vec(e) | Schema::Array(_, e) => !e.is_byte() && e.json_ok_at(depth),
            Schema::Tuple(e) => e.iter().all(|e| e.json_ok_at(depth)),
            Schema::Set(_, e) | Schema::Opt(e) | Schema::Wrap(e) => e.json_ok_at(depth),
            Schema::Probe(e) | Schema::Named(_, e) => e.json_ok_at(depth),
            Schema::Map(_, k, v) => k.json_key() && v.json_ok_at(depth),
            Schema::Struct(s) => s.fields.iter().all(|f| f.schema.json_ok_at(depth)),
            Schema::Dyn { .. } => false,
            Schema::Lazy(f) => depth > 0 || f().json_ok_at(depth + 1),
            _ => true,
        }
    }

    fn json_key(&self) -> bool {
        match self {
            Schema::Str | Schema::Fold | Schema::Char | Schema::Enum(_) => true,
            Schema::Wrap(e) | Schema::Probe(e) | Schema::Named(_, e) => e.json_key(),
            _ => false,
        }
    }
}

// ---------------------------------------------------------------- event trees

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Atom(Atom<'static>),
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>),
}

impl Node {
    pub fn str(s: &str) -> Node {
        Node::Atom(Atom::Str(s.to_string().into()))
    }

    pub fn events(&self) -> Vec<Event<'static>> {
        let mut rv = Vec::new();
        self.push_events(&mut rv);
        rv
    }

    fn push_events(&self, out: &mut Vec<Event<'static>>) {
        match self {
            Node::Atom(a) => out.push(Event::Atom(a.to_static())),
            Node::Seq(items) => {
                out.push(Event::SeqStart);
                items.iter().for_each(|x| x.push_events(out));
                out.push(Event::SeqEnd);
            }
            Node::Map(items) => {
                out.push(Event::MapStart);
                for (k, v) in items {
                    k.push_events(out);
                    v.push_events(out);
                }
                out.push(Event::MapEnd);
            }
        }
    }

    pub fn size(&self) -> usize {
        match self {
            Node::Atom(_) => 1,
            Node::Seq(items) => 2 + items.iter().map(Node::size).sum::<usize>(),
            Node::Map(items) => 2 + items.iter().map(|(k, v)| k.size() + v.size()).sum::<usize>(),
        }
    }
}

// ---------------------------------------------------------------- encoding

/// One value as it is serialized.
#[derive(Clone, Debug)]
pub struct SNode {
    pub name: Option<String>,
    /// what the descriptor says besides the name
    pub traits: &'static str,
    /// the probes around the value, outermost first
    pub probes: Vec<u32>,
    pub body: SBody,
}

#[derive(Clone, Debug)]
pub enum SBody {
    Atom(Atom<'static>),
    Seq(Vec<SNode>),
    Map(Vec<(SNode, SNode)>),
    Struct(Vec<SField>),
}

#[derive(Clone, Debug)]
pub enum SField {
    Field(String, SNode),
    /// a flattened value begins
    Enter(Vec<u32>),
    Leave(Vec<u32>),
}

pub fn is_optional(schema: &Schema, val: &Val) -> bool {
    match (schema, val) {
        (Schema::Unit, _) => true,
        (Schema::Opt(_), Val::None) => true,
        (Schema::Wrap(s), v) | (Schema::Named(_, s), v) => is_optional(s, v),
        (Schema::Probe(s), Val::Probe(_, v)) => is_optional(s, v),
        (Schema::Lazy(f), v) => is_optional(&f(), v),
        _ => false,
    }
}

pub fn encode(schema: &Schema, val: &Val) -> SNode {
    let atom = |a: Atom<'static>| SNode {
        name: schema.ser_name(),
        traits: schema.ser_traits(),
        probes: Vec::new(),
        body: SBody::Atom(a),
    };
    let node = |body: SBody| SNode {
        name: schema.ser_name(),
        traits: schema.ser_traits(),
        probes: Vec::new(),
        body,
    };
    match (schema, val) {
        (Schema::Lazy(f), v) => encode(&f(), v),
        (Schema::Dyn { .. }, Val::Dyn(n)) => snode(n),
        (Schema::Unit, _) => atom(Atom::Null),
        (Schema::Bool, Val::Bool(b)) => atom(Atom::Bool(*b)),
        (Schema::Int { min, .. }, Val::Int(n)) => {
            if *min < 0 {
                atom(Atom::I64(*n as i64))
            } else {
                atom(Atom::U64(*n as u64))
            }
        }
        (Schema::F32, Val::F32(f)) => atom(Atom::F64(*f as f64)),
        (Schema::F64, Val::F64(f)) => atom(Atom::F64(*f)),
        (Schema::Str, Val::Str(s)) => atom(Atom::Str(s.clone().into())),
        (Schema::Fold, Val::Fold(s)) => atom(Atom::Str(s.clone().into())),
        (Schema::Char, Val::Char(c)) => atom(Atom::Char(*c)),
        (_, Val::Bytes(b)) => atom(Atom::Bytes(b.clone().into())),
        (Schema::Enum(_), Val::Enum(name)) => atom(Atom::Str((*name).into())),
        (Schema::Vec(e), Val::Seq(v))
        | (Schema::Array(_, e), Val::Seq(v))
        | (Schema::Set(_, e), Val::Set(v)) => {
            node(SBody::Seq(v.iter().map(|v| encode(e, v)).collect()))
        }
        (Schema::Tuple(e), Val::Seq(v)) => node(SBody::Seq(
            e.iter().zip(v).map(|(e, v)| encode(e, v)).collect(),
        )),
        (Schema::Map(_, k, v), Val::Map(items)) => node(SBody::Map(
            items
                .iter()
                .map(|(a, b)| (encode(k, a), encode(v, b)))
                .collect(),
        )),
        (Schema::Opt(_), Val::None) => atom(Atom::Null),
        (Schema::Opt(s), Val::Some(v)) => SNode {
            name: schema.ser_name(),
            traits: schema.ser_traits(),
            ..encode(s, v)
        },
        (Schema::Wrap(s), v) => encode(s, v),
        (Schema::Named(_, s), v) => SNode {
            name: schema.ser_name(),
            traits: schema.ser_traits(),
            ..encode(s, v)
        },
        (Schema::Probe(s), Val::Probe(id, v)) => {
            let mut rv = encode(s, v);
            rv.probes.insert(0, *id);
            rv
        }
        (Schema::Struct(s), Val::Struct(fields)) => {
            let mut out = Vec::new();
            encode_fields(s, fields, s.skip_optionals, &mut out);
            node(SBody::Struct(out))
        }
        _ => panic!("value does not match schema: {:?}", val),
    }
}

fn snode(n: &Node) -> SNode {
    SNode {
        name: None,
        traits: "",
        probes: Vec::new(),
        body: match n {
            Node::Atom(a) => SBody::Atom(a.to_static()),
            Node::Seq(v) => SBody::Seq(v.iter().map(snode).collect()),
            Node::Map(v) => SBody::Map(v.iter().map(|(k, v)| (snode(k), snode(v))).collect()),
        },
    }
}

fn encode_fields(
    s: &StructSchema,
    values: &[(&'static str, Val)],
    skip_optionals: bool,
    out: &mut Vec<SField>,
) {
    for (field, (_, val)) in s.fields.iter().zip(values) {
        if field.skip_if.map_or(false, |f| f(val)) {
            continue;
        }
        if field.flatten {
            let mut probes = Vec::new();
            let mut v = val;
            while let Val::Probe(id, inner) = v {
                probes.push(*id);
                v = inner;
            }
            let inner = field.schema.as_struct();
            out.push(SField::Enter(probes.clone()));
            if let Val::Struct(values) = v {
                encode_fields(
                    &inner,
                    values,
                    skip_optionals || inner.skip_optionals,
                    out,
                );
            }
            out.push(SField::Leave(probes));
        } else if !(skip_optionals && is_optional(&field.schema, val)) {
            out.push(SField::Field(
                field.name.to_string(),
                encode(&field.schema, val),
            ));
        }
    }
}

impl SNode {
    /// All that the descriptor says.
    pub fn desc(&self) -> Option<String> {
        match (&self.name, self.traits) {
            (name, "") => name.clone(),
            (name, traits) => Some(format!("{}{}", name.as_deref().unwrap_or("-"), traits)),
        }
    }

    pub fn to_node(&self) -> Node {
        match &self.body {
            SBody::Atom(a) => Node::Atom(a.to_static()),
            SBody::Seq(items) => Node::Seq(items.iter().map(SNode::to_node).collect()),
            SBody::Map(items) => Node::Map(
                items
                    .iter()
                    .map(|(k, v)| (k.to_node(), v.to_node()))
                    .collect(),
            ),
            SBody::Struct(items) => Node::Map(
                items
                    .iter()
                    .filter_map(|f| match f {
                        SField::Field(k, v) => Some((Node::str(k), v.to_node())),
                        _ => None,
                    })
                    .collect(),
            ),
        }
    }
}

// ---------------------------------------------------------------- decoding

/// An error at the event with the given index.
pub type DecodeError = (usize, ErrorKind);

/// Decodes an event tree in document order.  `at` is the index of the next event.
pub fn decode(schema: &Schema, node: &Node, at: &mut usize) -> Result<Val, DecodeError> {
    let here = *at;
    let unexpected = Err((here, ErrorKind::Unexpected));
    match (schema, node) {
        (Schema::Lazy(f), n) => decode(&f(), n, at),
        (Schema::Dyn { any }, n) => {
            let simple = matches!(n, Node::Atom(a) if !matches!(a, Atom::F64(_) | Atom::Bytes(_)));
            if !any && !simple {
                return unexpected;
            }
            *at += n.size();
            Ok(Val::Dyn(n.clone()))
        }
        (Schema::Wrap(s), n) | (Schema::Probe(s), n) | (Schema::Named(_, s), n) => {
            decode(s, n, at)
        }
        // null can stand for both of them, it is taken for the inner one
        (Schema::Opt(s), n @ Node::Atom(Atom::Null)) if matches!(**s, Schema::Opt(_)) => {
            Ok(Val::Some(Box::new(decode(s, n, at)?)))
        }
        (Schema::Opt(_), Node::Atom(Atom::Null)) => {
            *at += 1;
            Ok(Val::None)
        }
        (Schema::Opt(s), n) => Ok(Val::Some(Box::new(decode(s, n, at)?))),

        (s, Node::Atom(a)) => {
            let rv = match (s, a) {
                (Schema::Unit, Atom::Null) => Val::Unit,
                (Schema::Bool, Atom::Bool(b)) => Val::Bool(*b),
                (Schema::Int { min, max, .. }, Atom::U64(_) | Atom::I64(_)) => {
                    let n = match a {
                        Atom::U64(n) => *n as i128,
                        Atom::I64(n) => *n as i128,
                        _ => unreachable!(),
                    };
                    if n < *min || n > *max {
                        return Err((here, ErrorKind::OutOfRange));
                    }
                    Val::Int(n)
                }
                (Schema::F32, Atom::U64(n)) => Val::F32(*n as f32),
                (Schema::F32, Atom::I64(n)) => Val::F32(*n as f32),
                (Schema::F32, Atom::F64(n)) => Val::F32(*n as f32),
                (Schema::F64, Atom::U64(n)) => Val::F64(*n as f64),
                (Schema::F64, Atom::I64(n)) => Val::F64(*n as f64),
                (Schema::F64, Atom::F64(n)) => Val::F64(*n),
                (Schema::Str, Atom::Str(s)) => Val::Str(s.to_string()),
                (Schema::Fold, Atom::Str(s)) => Val::Fold(s.to_string()),
                (Schema::Char, Atom::Char(c)) => Val::Char(*c),
                (Schema::Char, Atom::Str(s)) if s.chars().count() == 1 => {
                    Val::Char(s.chars().next().unwrap())
                }
                (Schema::Vec(e), Atom::Bytes(b)) if e.is_byte() => Val::Bytes(b.to_vec()),
                (Schema::Array(n, e), Atom::Bytes(b)) if e.is_byte() => {
                    if b.len() != *n {
                        return Err((here, ErrorKind::WrongLength));
                    }
                    Val::Bytes(b.to_vec())
                }
                (Schema::Enum(variants), Atom::Str(s)) => {
                    match variants
                        .iter()
                        .find(|(name, aliases)| *name == &s[..] || aliases.contains(&&s[..]))
                    {
                        Some((name, _)) => Val::Enum(name),
                        None => return unexpected,
                    }
                }
                _ => return unexpected,
            };
            *at += 1;
            Ok(rv)
        }

        (Schema::Vec(e), Node::Seq(items)) => {
            *at += 1;
            let mut rv = Vec::new();
            for item in items {
                rv.push(decode(e, item, at)?);
            }
            *at += 1;
            Ok(bytes_or_seq(e, rv))
        }
        (Schema::Set(_, e), Node::Seq(items)) => {
            *at += 1;
            let mut rv: Vec<Val> = Vec::new();
            for item in items {
                let v = decode(e, item, at)?;
                if !rv.iter().any(|x| cmp(x, &v) == Ordering::Equal) {
                    rv.push(v);
                }
            }
            *at += 1;
            Ok(Val::Set(rv))
        }
        (Schema::Array(n, e), Node::Seq(items)) => {
            *at += 1;
            let mut rv = Vec::new();
            for item in items {
                if rv.len() == *n {
                    return Err((*at, ErrorKind::WrongLength));
                }
                rv.push(decode(e, item, at)?);
            }
            if rv.len() != *n {
                return Err((*at, ErrorKind::WrongLength));
            }
            *at += 1;
            Ok(bytes_or_seq(e, rv))
        }
        (Schema::Tuple(e), Node::Seq(items)) => {
            *at += 1;
            let mut rv = Vec::new();
            for item in items {
                if rv.len() == e.len() {
                    return Err((*at, ErrorKind::WrongLength));
                }
                rv.push(decode(&e[rv.len()], item, at)?);
            }
            if rv.len() != e.len() {
                return Err((*at, ErrorKind::WrongLength));
            }
            *at += 1;
            Ok(Val::Seq(rv))
        }
        (Schema::Map(_, ks, vs), Node::Map(items)) => {
            *at += 1;
            let mut rv: Vec<(Val, Val)> = Vec::new();
            for (k, v) in items {
                let k = decode(ks, k, at)?;
                let v = decode(vs, v, at)?;
                match rv.iter_mut().find(|x| cmp(&x.0, &k) == Ordering::Equal) {
                    Some(slot) => slot.1 = v,
                    None => rv.push((k, v)),
                }
            }
            *at += 1;
            Ok(Val::Map(rv))
        }
        (Schema::Struct(s), Node::Map(items)) => {
            *at += 1;
            let mut partial = Partial::new(s);
            for (k, v) in items {
                let k = match decode(&Schema::Str, k, at)? {
                    Val::Str(k) => k,
                    _ => unreachable!(),
                };
                match partial.find(s, &k) {
                    Some((slot, schema)) => {
                        let v = decode(&schema, v, at)?;
                        *slot = Some(v);
                    }
                    None => *at += v.size(),
                }
            }
            let rv = partial.finish(s).map_err(|kind| (*at, kind))?;
            *at += 1;
            Ok(rv)
        }
        _ => unexpected,
    }
}

/// What the top descriptor says.
#[derive(Clone, Debug, PartialEq)]
pub enum Face {
    Is(Option<String>),
    /// not predicted
    Any,
}

/// The top descriptor after every event of the document, as long as no event fails.
pub fn faces(schema: &Schema, node: &Node) -> Vec<Face> {
    let mut rv = Vec::new();
    let mut stack = Vec::new();
    add_faces(Some(schema), node, false, &mut stack, &mut rv);
    rv
}

/// No schema: the value has nothing to do with the type (but may be ignored).
fn add_faces(
    schema: Option<&Schema>,
    node: &Node,
    ignored: bool,
    stack: &mut Vec<Face>,
    out: &mut Vec<Face>,
) {
    let lazy;
    let mut schema = schema;
    loop {
        schema = match schema {
            Some(Schema::Lazy(f)) => {
                lazy = f();
                return add_faces(Some(&lazy), node, ignored, stack, out);
            }
            Some(Schema::Wrap(s) | Schema::Probe(s) | Schema::Opt(s) | Schema::Named(_, s)) => {
                Some(s)
            }
            _ => break,
        };
    }
    let top = |stack: &[Face]| stack.last().cloned().unwrap_or(Face::Is(None));
    let is = |s: &str| Face::Is(Some(s.to_string()));
    let face = match (schema, node) {
        (_, Node::Atom(_)) => {
            out.push(top(stack));
            return;
        }
        (Some(Schema::Vec(e)), Node::Seq(_)) => is(if e.is_byte() { "bytes" } else { "vec" }),
        (Some(Schema::Set(name, _)), Node::Seq(_)) => is(&format!("{}~", name)),
        (Some(Schema::Array(..)), Node::Seq(_)) => is("array"),
        (Some(Schema::Tuple(_)), Node::Seq(_)) => is("tuple"),
        (Some(Schema::Map(..)), Node::Map(_)) => is("map~"),
        (Some(Schema::Struct(s)), Node::Map(_)) => is(s.name),
        (None, _) if ignored => Face::Is(None),
        _ => Face::Any,
    };
    stack.push(face.clone());
    out.push(face);
    match node {
        Node::Seq(items) => {
            for (i, item) in items.iter().enumerate() {
                let inner = match schema {
                    Some(Schema::Vec(e) | Schema::Set(_, e) | Schema::Array(_, e)) => Some(&**e),
                    Some(Schema::Tuple(e)) => e.get(i),
                    _ => None,
                };
                add_faces(inner, item, ignored, stack, out);
            }
        }
        Node::Map(items) => {
            let mut partial = match schema {
                Some(Schema::Struct(s)) => Some((Partial::new(s), s)),
                _ => None,
            };
            for (k, v) in items {
                match (schema, &mut partial) {
                    (Some(Schema::Map(_, ks, vs)), _) => {
                        add_faces(Some(ks), k, false, stack, out);
                        add_faces(Some(vs), v, false, stack, out);
                    }
                    (_, Some((partial, s))) => {
                        add_faces(None, k, false, stack, out);
                        let key = match k {
                            Node::Atom(Atom::Str(k)) => partial.find(s, k).map(|x| x.1),
                            _ => None,
                        };
                        match key {
                            Some(schema) => add_faces(Some(&schema), v, false, stack, out),
                            None => add_faces(None, v, true, stack, out),
                        }
                    }
                    _ => {
                        add_faces(None, k, ignored, stack, out);
                        add_faces(None, v, ignored, stack, out);
                    }
                }
            }
        }
        Node::Atom(_) => {}
    }
    stack.pop();
    out.push(top(stack));
}

fn bytes_or_seq(e: &Schema, items: Vec<Val>) -> Val {
    if e.is_byte() {
        Val::Bytes(
            items
                .iter()
                .map(|x| match x {
                    Val::Int(n) => *n as u8,
                    _ => unreachable!(),
                })
                .collect(),
        )
    } else {
        Val::Seq(items)
    }
}

/// A struct of which some fields are known.
struct Partial {
    fields: Vec<Option<Val>>,
    nested: Vec<Option<Partial>>,
}

impl Partial {
    fn new(s: &StructSchema) -> Partial {
        Partial {
            fields: s.fields.iter().map(|_| None).collect(),
            nested: s
                .fields
                .iter()
                .map(|f| f.flatten.then(|| Partial::new(&f.schema.as_struct())))
                .collect(),
        }
    }

    fn find(&mut self, s: &StructSchema, key: &str) -> Option<(&mut Option<Val>, Schema)> {
        if let Some(i) = s
            .fields
            .iter()
            .position(|f| !f.flatten && (f.name == key || f.aliases.contains(&key)))
        {
            return Some((&mut self.fields[i], s.fields[i].schema.clone()));
        }
        for (f, nested) in s.fields.iter().zip(self.nested.iter_mut()) {
            if let Some(nested) = nested {
                if let Some(rv) = nested.find(&f.schema.as_struct(), key) {
                    return Some(rv);
                }
            }
        }
        None
    }

    fn finish(mut self, s: &StructSchema) -> Result<Val, ErrorKind> {
        // flattened ones go first
        for (i, f) in s.fields.iter().enumerate() {
            if let Some(nested) = self.nested[i].take() {
                self.fields[i] = Some(nested.finish(&f.schema.as_struct())?);
            }
        }
        let container_default = s.default.map(|f| f());
        let mut rv = Vec::new();
        for (i, f) in s.fields.iter().enumerate() {
            let val = match self.fields[i].take() {
                Some(val) => val,
                None => {
                    if let Some(default) = f.default {
                        default()
                    } else if let Some(Val::Struct(ref d)) = container_default {
                        d[i].1.clone()
                    } else if matches!(f.schema, Schema::Opt(_)) {
                        Val::None
                    } else {
                        return Err(ErrorKind::MissingField);
                    }
                }
            };
            rv.push((f.name, val));
        }
        Ok(Val::Struct(rv))
    }
}

// ---------------------------------------------------------------- locations

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Unknown,
    Index(u64),
    Key(String),
    /// an index or unknown, both are fine
    Lenient(u64),
}

pub fn seg_of_key(atom: &Atom) -> Seg {
    match atom {
        Atom::Str(s) => Seg::Key(s.to_string()),
        Atom::U64(n) => Seg::Index(*n),
        Atom::I64(n) if *n >= 0 => Seg::Lenient(*n as u64),
        _ => Seg::Unknown,
    }
}

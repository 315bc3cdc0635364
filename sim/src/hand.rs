//! Types whose serialization and deserialization is written by hand, as users do it.
use crate::model::{Node, Schema, Val};
use crate::probe::Probe;
use crate::types::{Gen, Sim};
use deser::de::{Deserialize, DeserializerState, Sink, SinkHandle};
use deser::ser::{Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState};
use deser::{make_slot_wrapper, Atom, Descriptor, Error, ErrorKind};

make_slot_wrapper!(Slot);

// ---------------------------------------------------------------- anything

/// A value of any kind, like the value types of many formats.
#[derive(Debug)]
pub enum Dyn {
    Atom(Atom<'static>),
    Seq(Vec<Dyn>),
    Map(Vec<(Dyn, Dyn)>),
}

struct Items<'a>(std::slice::Iter<'a, Dyn>);

impl<'a> SeqEmitter for Items<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(self.0.next().map(|x| SerializeHandle::to(x)))
    }
}

struct Entries<'a> {
    entries: &'a [(Dyn, Dyn)],
    at: usize,
}

impl<'a> MapEmitter for Entries<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.at += 1;
        Ok(self
            .entries
            .get(self.at - 1)
            .map(|x| SerializeHandle::to(&x.0)))
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(SerializeHandle::boxed(&self.entries[self.at - 1].1))
    }
}

impl Serialize for Dyn {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(match self {
            // by way of all the conversions there are
            Dyn::Atom(Atom::Null) => Chunk::from(()),
            Dyn::Atom(Atom::Bool(v)) => Chunk::from(*v),
            Dyn::Atom(Atom::Char(v)) => Chunk::from(*v),
            Dyn::Atom(Atom::U64(v)) if v % 2 == 0 => Chunk::from(*v as usize),
            Dyn::Atom(Atom::U64(v)) => Chunk::from(*v),
            Dyn::Atom(Atom::I64(v)) if v % 2 == 0 => Chunk::from(*v as isize),
            Dyn::Atom(Atom::I64(v)) => Chunk::from(*v),
            Dyn::Atom(Atom::F64(v)) => Chunk::from(*v),
            Dyn::Atom(Atom::Str(s)) if s.len() % 3 == 0 => Chunk::from(s.to_string()),
            Dyn::Atom(Atom::Str(s)) if s.len() % 3 == 1 => Chunk::from(&**s),
            Dyn::Atom(Atom::Str(s)) => Chunk::from(Atom::Str((&**s).into())),
            Dyn::Atom(Atom::Bytes(s)) if s.len() % 2 == 0 => Chunk::from(&**s),
            Dyn::Atom(Atom::Bytes(s)) => Chunk::Atom(Atom::Bytes((&**s).into())),
            Dyn::Atom(a) => Chunk::Atom(a.clone()),
            Dyn::Seq(v) => Chunk::Seq(Box::new(Items(v.iter()))),
            Dyn::Map(v) => Chunk::Map(Box::new(Entries { entries: v, at: 0 })),
        })
    }
}

struct DynSink<'a> {
    out: &'a mut Option<Dyn>,
    seq: Option<Vec<Dyn>>,
    map: Option<Vec<(Dyn, Dyn)>>,
    key: Option<Dyn>,
    value: Option<Dyn>,
}

impl<'a> DynSink<'a> {
    fn flush(&mut self) {
        if let Some(value) = self.value.take() {
            match (self.key.take(), &mut self.seq, &mut self.map) {
                (Some(key), _, Some(map)) => map.push((key, value)),
                (None, Some(seq), _) => seq.push(value),
                _ => {}
            }
        }
    }
}

impl Deserialize for Dyn {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(DynSink {
            out,
            seq: None,
            map: None,
            key: None,
            value: None,
        })
    }
}

impl<'a> Sink for DynSink<'a> {
    fn atom(&mut self, atom: Atom, _: &DeserializerState) -> Result<(), Error> {
        *self.out = Some(Dyn::Atom(atom.to_static()));
        Ok(())
    }
    fn map(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.map = Some(Vec::new());
        Ok(())
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.seq = Some(Vec::new());
        Ok(())
    }
    fn next_key(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        self.flush();
        Ok(Deserialize::deserialize_into(&mut self.key))
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        if self.seq.is_some() {
            self.flush();
        }
        Ok(Deserialize::deserialize_into(&mut self.value))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.flush();
        if let Some(map) = self.map.take() {
            *self.out = Some(Dyn::Map(map));
        } else if let Some(seq) = self.seq.take() {
            *self.out = Some(Dyn::Seq(seq));
        }
        Ok(())
    }
}

fn simple_atom(g: &mut Gen) -> Atom<'static> {
    match g.draw(6) {
        0 => Atom::U64(u64::gen(g)),
        1 => Atom::Str(g.string().into()),
        2 => Atom::Bool(bool::gen(g)),
        3 => Atom::I64(i64::gen(g)),
        4 => Atom::Char(char::gen(g)),
        _ => Atom::Null,
    }
}

impl Dyn {
    fn any(g: &mut Gen, depth: u32) -> Dyn {
        match if depth < 4 { g.draw(12) } else { 0 } {
            0..=5 => Dyn::Atom(simple_atom(g)),
            6 => Dyn::Atom(Atom::F64(f64::gen(g))),
            7 => Dyn::Atom(Atom::Bytes((0..g.len()).map(|_| u8::gen(g)).collect())),
            8 | 9 => Dyn::Seq((0..g.len()).map(|_| Dyn::any(g, depth + 1)).collect()),
            _ => Dyn::Map(
                (0..g.len())
                    .map(|_| {
                        let key = if g.chance(4, 5) {
                            Dyn::Atom(simple_atom(g))
                        } else {
                            Dyn::any(g, depth + 2)
                        };
                        (key, Dyn::any(g, depth + 1))
                    })
                    .collect(),
            ),
        }
    }

    fn node(&self) -> Node {
        match self {
            Dyn::Atom(a) => Node::Atom(a.clone()),
            Dyn::Seq(v) => Node::Seq(v.iter().map(Dyn::node).collect()),
            Dyn::Map(v) => Node::Map(v.iter().map(|(k, v)| (k.node(), v.node())).collect()),
        }
    }
}

impl Sim for Dyn {
    fn schema() -> Schema {
        Schema::Dyn { any: true }
    }
    fn gen(g: &mut Gen) -> Self {
        Dyn::any(g, 0)
    }
    fn norm(&self) -> Val {
        Val::Dyn(self.node())
    }
}

// ---------------------------------------------------------------- keys of all kinds

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MixKey {
    U64(u64),
    Str(String),
    Null,
    I64(i64),
    Char(char),
    Bool(bool),
}

impl MixKey {
    fn atom(&self) -> Atom<'_> {
        match self {
            MixKey::U64(v) => Atom::U64(*v),
            MixKey::Str(v) => Atom::Str((&v[..]).into()),
            MixKey::Null => Atom::Null,
            MixKey::I64(v) => Atom::I64(*v),
            MixKey::Char(v) => Atom::Char(*v),
            MixKey::Bool(v) => Atom::Bool(*v),
        }
    }

    fn from_atom(atom: Atom<'_>) -> Result<MixKey, Atom<'_>> {
        Ok(match atom {
            Atom::U64(v) => MixKey::U64(v),
            Atom::Str(v) => MixKey::Str(v.into_owned()),
            Atom::Null => MixKey::Null,
            Atom::I64(v) => MixKey::I64(v),
            Atom::Char(v) => MixKey::Char(v),
            Atom::Bool(v) => MixKey::Bool(v),
            other => return Err(other),
        })
    }
}

impl Serialize for MixKey {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Atom(self.atom()))
    }
}

impl Sink for Slot<MixKey> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match MixKey::from_atom(atom) {
            Ok(key) => {
                **self = Some(key);
                Ok(())
            }
            Err(other) => self.unexpected_atom(other, state),
        }
    }
}

impl Deserialize for MixKey {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        Slot::make_handle(out)
    }
}

impl Sim for MixKey {
    fn schema() -> Schema {
        Schema::Dyn { any: false }
    }
    fn gen(g: &mut Gen) -> Self {
        MixKey::from_atom(simple_atom(g)).unwrap()
    }
    fn norm(&self) -> Val {
        Val::Dyn(Node::Atom(self.atom().to_static()))
    }
}

// ---------------------------------------------------------------- sinks in sinks

/// Hands out the same sink for every element: one which is a part of itself.
pub struct Inside(Vec<Probe<String>>);

struct InsideSink<'a> {
    out: &'a mut Option<Inside>,
    elements: Elements,
    open: bool,
}

#[derive(Default)]
struct Elements {
    items: Vec<Probe<String>>,
    /// is read in finish
    last: Option<Box<str>>,
}

impl Sink for Elements {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        match atom {
            Atom::Str(s) => {
                self.last = Some(s.into());
                Ok(())
            }
            other => self.unexpected_atom(other, state),
        }
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        match self.last.take() {
            Some(s) => {
                self.items.push(Probe::new(s.into()));
                Ok(())
            }
            None => Err(Error::new(ErrorKind::Unexpected, "finished without a value")),
        }
    }
}

struct InsideDescriptor;

impl Descriptor for InsideDescriptor {
    fn name(&self) -> Option<&str> {
        Some("vec")
    }
}

impl<'a> Sink for InsideSink<'a> {
    fn descriptor(&self) -> &dyn Descriptor {
        &InsideDescriptor
    }
    fn seq(&mut self, _: &DeserializerState) -> Result<(), Error> {
        self.open = true;
        Ok(())
    }
    fn next_value(&mut self, _: &DeserializerState) -> Result<SinkHandle, Error> {
        Ok(SinkHandle::to(&mut self.elements))
    }
    fn finish(&mut self, _: &DeserializerState) -> Result<(), Error> {
        if self.open {
            *self.out = Some(Inside(std::mem::take(&mut self.elements.items)));
        }
        Ok(())
    }
}

impl Deserialize for Inside {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(InsideSink {
            out,
            elements: Elements::default(),
            open: false,
        })
    }
}

struct InsideEmitter<'a> {
    items: &'a [Probe<String>],
    /// handed out by reference
    current: Option<&'a Probe<String>>,
}

impl<'a> SeqEmitter for InsideEmitter<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        match self.items.split_first() {
            Some((first, rest)) => {
                self.items = rest;
                self.current = Some(first);
                Ok(self
                    .current
                    .as_ref()
                    .map(|x| SerializeHandle::Borrowed(x)))
            }
            None => Ok(None),
        }
    }
}

impl Serialize for Inside {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        Ok(Chunk::Seq(Box::new(InsideEmitter {
            items: &self.0,
            current: None,
        })))
    }
}

impl Sim for Inside {
    fn schema() -> Schema {
        Schema::Named(None, Box::new(<Vec<Probe<String>>>::schema()))
    }
    fn gen(g: &mut Gen) -> Self {
        Inside(Sim::gen(g))
    }
    fn norm(&self) -> Val {
        self.0.norm()
    }
}

//! The instrumented participants: values, sinks, serializables and emitters which log,
//! check and fail.
use crate::alloc::{tracked, untracked};
use crate::core::*;
use crate::model::{seg_of_key, Seg};
use deser::de::{Deserialize, DeserializerState, OwnedSink, Sink, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
};
use deser::{Atom, Descriptor, Error};
use deser_path::{Path, PathSegment};
use std::borrow::Cow;
use std::cell::{Cell, OnceCell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ---------------------------------------------------------------- probe values

/// A value with an identity: its life is recorded in the ledger, its callbacks are fault
/// points.
pub struct Probe<T> {
    pub id: u32,
    pub inner: T,
}

impl<T> Probe<T> {
    pub fn new(inner: T) -> Probe<T> {
        let id = new_obj("value", 0);
        set_who(id, Who::P(id));
        Probe { id, inner }
    }

    /// What is inside, as seen by comparison and hashing code of the user.
    pub fn value(&self) -> &T {
        cb_user(self.id);
        &self.inner
    }
}

impl<T> Drop for Probe<T> {
    fn drop(&mut self) {
        drop_obj(self.id);
        cb_drop();
    }
}

impl<T: fmt::Debug> fmt::Debug for Probe<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

impl<T: PartialEq> PartialEq for Probe<T> {
    fn eq(&self, other: &Self) -> bool {
        cb_user(self.id);
        self.inner == other.inner
    }
}

impl<T: Eq> Eq for Probe<T> {}

impl<T: PartialOrd> PartialOrd for Probe<T> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        cb_user(self.id);
        self.inner.partial_cmp(&other.inner)
    }
}

impl<T: Ord> Ord for Probe<T> {
    fn cmp(&self, other: &Self) -> Ordering {
        cb_user(self.id);
        self.inner.cmp(&other.inner)
    }
}

impl<T: Hash> Hash for Probe<T> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        cb_user(self.id);
        self.inner.hash(state)
    }
}

impl<T: Default> Default for Probe<T> {
    fn default() -> Self {
        cb_user(0);
        Probe::new(T::default())
    }
}

impl<T: Serialize> Serialize for Probe<T> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        cb(self.id, Op::Ser)?;
        let rv = self.inner.serialize(state)?;
        cb_post(self.id, Op::Ser)?;
        Ok(rv)
    }

    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        cb(self.id, Op::SerFin)?;
        self.inner.finish(state)
    }

    fn is_optional(&self) -> bool {
        cb_user(self.id);
        self.inner.is_optional()
    }

    fn descriptor(&self) -> &dyn Descriptor {
        self.inner.descriptor()
    }
}

impl<T: Deserialize> Deserialize for Probe<T> {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        cb_user(0);
        let sink = OwnedSink::deserialize();
        let id = new_obj("probe sink", 0);
        let _g = untracked();
        SinkHandle::boxed(ProbeSink {
            out,
            sink,
            id,
            proto: Proto::default(),
        })
    }
}

struct ProbeSink<'a, T: Deserialize> {
    out: &'a mut Option<Probe<T>>,
    sink: OwnedSink<T>,
    id: u32,
    proto: Proto,
}

impl<'a, T: Deserialize> Drop for ProbeSink<'a, T> {
    fn drop(&mut self) {
        // the slot has to be there for as long as the sink is
        std::hint::black_box(self.out.is_some());
        if self.proto.pending() {
            w(|w| w.unfinished += 1);
        }
        drop_obj(self.id);
        cb_drop();
    }
}

impl<'a, T: Deserialize> Sink for ProbeSink<'a, T> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.proto.atom(self.id);
        cb(self.id, Op::Atom)?;
        self.sink.borrow_mut().atom(atom, state)?;
        cb_post(self.id, Op::Atom)
    }

    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.proto.map(self.id);
        cb(self.id, Op::Map)?;
        self.sink.borrow_mut().map(state)?;
        cb_post(self.id, Op::Map)
    }

    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.proto.seq(self.id);
        cb(self.id, Op::Seq)?;
        self.sink.borrow_mut().seq(state)?;
        cb_post(self.id, Op::Seq)
    }

    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.proto.next_key(self.id);
        cb(self.id, Op::DeNextKey)?;
        let rv = self.sink.borrow_mut().next_key(state)?;
        cb_post(self.id, Op::DeNextKey)?;
        Ok(rv)
    }

    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.proto.next_value(self.id);
        cb(self.id, Op::DeNextVal)?;
        let rv = self.sink.borrow_mut().next_value(state)?;
        cb_post(self.id, Op::DeNextVal)?;
        Ok(rv)
    }

    fn value_for_key(
        &mut self,
        key: &str,
        state: &DeserializerState,
    ) -> Result<Option<SinkHandle>, Error> {
        self.proto.flat = true;
        cb(self.id, Op::ForKey)?;
        let rv = self.sink.borrow_mut().value_for_key(key, state)?;
        cb_post(self.id, Op::ForKey)?;
        Ok(rv)
    }

    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.proto.finish(self.id);
        cb(self.id, Op::DeFin)?;
        self.sink.borrow_mut().finish(state)?;
        if let Some(value) = self.sink.take() {
            *self.out = Some(Probe::new(value));
        }
        cb_post(self.id, Op::DeFin)
    }

    fn descriptor(&self) -> &dyn Descriptor {
        self.sink.borrow().descriptor()
    }

    fn expecting(&self) -> Cow<'_, str> {
        self.sink.borrow().expecting()
    }
}

// ---------------------------------------------------------------- the protocol of a sink

/// What a single sink may see: one value, then one finish; in between keys and values
/// alternately.
#[derive(Default)]
pub struct Proto {
    received: u8,
    is_map: bool,
    is_seq: bool,
    at_value: bool,
    pub finished: u8,
    flat: bool,
}

impl Proto {
    /// received something, but was not finished
    fn pending(&self) -> bool {
        (self.received > 0 || self.flat) && self.finished == 0
    }
    fn bad(&self, id: u32, what: &str) {
        if !is_chaos() {
            violate("sink-protocol", format!("sink #{}: {}", id, what));
        }
    }
    fn receive(&mut self, id: u32) {
        self.received = self.received.saturating_add(1);
        if self.received > 1 {
            self.bad(id, "received more than one value");
        }
        if self.finished > 0 {
            self.bad(id, "received a value after it was finished");
        }
    }
    fn atom(&mut self, id: u32) {
        self.receive(id);
    }
    fn map(&mut self, id: u32) {
        self.receive(id);
        self.is_map = true;
    }
    fn seq(&mut self, id: u32) {
        self.receive(id);
        self.is_seq = true;
    }
    fn next_key(&mut self, id: u32) {
        if !self.is_map || self.at_value || self.finished > 0 {
            self.bad(id, "next_key was called where no key is possible");
        }
        self.at_value = true;
    }
    fn next_value(&mut self, id: u32) {
        let fine = (self.is_map && self.at_value || self.is_seq) && self.finished == 0;
        if !fine {
            self.bad(id, "next_value was called where no value is possible");
        }
        self.at_value = false;
    }
    fn finish(&mut self, id: u32) {
        self.finished = self.finished.saturating_add(1);
        if self.finished > 1 {
            self.bad(id, "was finished more than once");
        }
        if self.received == 0 && !self.flat && self.is_map {
            self.bad(id, "was finished without a value");
        }
        if self.at_value {
            self.bad(id, "was finished between a key and its value");
        }
    }
}

// ---------------------------------------------------------------- shared bits

pub struct OwnDesc {
    pub name: Option<String>,
    pub precision: Option<usize>,
    pub unordered: bool,
}

impl OwnDesc {
    fn of(inner: &dyn Descriptor, ord: u32, watch: Watch) -> Box<OwnDesc> {
        Box::new(OwnDesc {
            name: own_name(inner.name(), ord, watch),
            precision: inner.precision(),
            unordered: inner.unordered(),
        })
    }
}

/// All that a descriptor says.
pub fn describe(d: &dyn Descriptor) -> Option<String> {
    let mut rv = d.name().map(|x| x.to_string());
    if let Some(bits) = d.precision() {
        rv = Some(format!("{}:{}", rv.as_deref().unwrap_or("-"), bits));
    }
    if d.unordered() {
        rv = Some(format!("{}~", rv.as_deref().unwrap_or("-")));
    }
    rv
}

impl Descriptor for OwnDesc {
    fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    fn precision(&self) -> Option<usize> {
        self.precision
    }
    fn unordered(&self) -> bool {
        self.unordered
    }
}

/// Memory which is read through a borrow when a child is used or dropped.
pub struct Canary(Box<Cell<u64>>);

impl Canary {
    fn new() -> Canary {
        Canary(Box::new(Cell::new(0x00c0_ffee)))
    }
}

/// What is borrowed by the child a container has handed out.  It is gone as soon as the
/// container is used again, as the signatures of the callbacks allow.
pub struct Lent(Canary);

impl Lent {
    fn new() -> Lent {
        Lent(Canary::new())
    }
    fn renew(&mut self) {
        let _g = untracked();
        *self = Lent::new();
    }
    fn get(&self) -> &Cell<u64> {
        &self.0 .0
    }
}

impl Drop for Lent {
    fn drop(&mut self) {
        self.0 .0.set(0xdead);
    }
}

fn poke(c: Option<&Cell<u64>>) {
    if let Some(c) = c {
        if c.get() != 0x00c0_ffee {
            violate("borrow-broken", "the object borrowed from is gone");
        }
    }
}

/// What the wrappers check.
#[derive(Clone, Copy, Default, Debug)]
pub struct Watch {
    pub path: bool,
    pub state: bool,
    /// descriptor names get a number, to tell one from another
    pub unique_names: bool,
    pub protocol: bool,
}

// Extensions of different types that have the same name, length of name, or layout.
pub mod ext_one {
    #[derive(Default, Debug)]
    pub struct Count(pub u64);
    #[derive(Default, Debug)]
    pub struct Unit;
}
pub mod ext_two {
    #[derive(Default, Debug)]
    pub struct Count(pub Vec<u64>);
    #[derive(Default, Debug)]
    pub struct Unit;
}
#[derive(Default, Debug)]
#[repr(align(128))]
pub struct ExtWide<T>(pub T);

#[derive(Default, Debug)]
pub struct ExtNth<const N: usize>(pub u64);

/// Extension values of a session, so that both kinds of state can be looked at alike.
trait Extended {
    fn get<T: Default + std::fmt::Debug + 'static>(&self) -> std::cell::Ref<'_, T>;
    fn get_mut<T: Default + std::fmt::Debug + 'static>(&self) -> std::cell::RefMut<'_, T>;
}
impl<'a> Extended for DeserializerState<'a> {
    fn get<T: Default + std::fmt::Debug + 'static>(&self) -> std::cell::Ref<'_, T> {
        DeserializerState::get(self)
    }
    fn get_mut<T: Default + std::fmt::Debug + 'static>(&self) -> std::cell::RefMut<'_, T> {
        DeserializerState::get_mut(self)
    }
}
impl<'a> Extended for SerializerState<'a> {
    fn get<T: Default + std::fmt::Debug + 'static>(&self) -> std::cell::Ref<'_, T> {
        SerializerState::get(self)
    }
    fn get_mut<T: Default + std::fmt::Debug + 'static>(&self) -> std::cell::RefMut<'_, T> {
        SerializerState::get_mut(self)
    }
}

fn path_matches(path: &[PathSegment], loc: &[Seg]) -> bool {
    path.len() == loc.len()
        && path.iter().zip(loc).all(|(p, l)| match (p, l) {
            (PathSegment::Unknown, Seg::Unknown | Seg::Lenient(_)) => true,
            (PathSegment::Index(a), Seg::Index(b) | Seg::Lenient(b)) => *a as u64 == *b,
            (PathSegment::Key(a), Seg::Key(b)) => a == b,
            _ => false,
        })
}

#[derive(Clone, Copy, PartialEq)]
pub enum Expect {
    /// the path is the location
    Exact,
    /// the location, and at most one segment of unspecified content
    Below,
    /// the location and anything below
    Prefix,
    /// the location and at most an unknown segment
    BelowUnknown,
}

pub fn check_path(path: &Path, loc: &[Seg], expect: Expect, what: &str) {
    let p = path.segments();
    let ok = match expect {
        Expect::Exact => path_matches(p, loc),
        Expect::Prefix => p.len() >= loc.len() && path_matches(&p[..loc.len()], loc),
        Expect::Below => {
            p.len() >= loc.len()
                && p.len() <= loc.len() + 1
                && path_matches(&p[..loc.len()], loc)
        }
        Expect::BelowUnknown => {
            p.len() >= loc.len()
                && p.len() <= loc.len() + 1
                && path_matches(&p[..loc.len()], loc)
                && p[loc.len()..].iter().all(|x| matches!(x, PathSegment::Unknown))
        }
    };
    count("checks.path");
    if !ok {
        violate(
            "wrong-path",
            format!("{}: the path is {:?}, the location {:?}", what, p, loc),
        );
    }
}

fn check_view(what: &str, depth: usize, top: Option<Option<String>>, exp: &View) {
    count("checks.state");
    if depth != exp.depth {
        violate(
            "wrong-depth",
            format!("{}: depth is {}, expected {}", what, depth, exp.depth),
        );
    }
    if top != exp.top {
        violate(
            "wrong-top-descriptor",
            format!("{}: top descriptor is {:?}, expected {:?}", what, top, exp.top),
        );
    }
}

/// What the state has to look like.
#[derive(Clone, Debug, Default)]
pub struct View {
    pub depth: usize,
    pub top: Option<Option<String>>,
}

/// Every look at the state counts in the extensions of the session.
fn bump_ext<S: Extended>(what: &str, state: &S) {
    let (n, h) = w(|w| {
        let s = session() as usize;
        w.sessions[s].ext += 1;
        (w.sessions[s].ext, w.sessions[s].ext * 31 + s as u64)
    });
    let lost = |which: &str, holds: &dyn std::fmt::Debug| {
        violate(
            "extension-lost",
            format!("{}: at callback {} the {} extension holds {:?}", what, n, which, holds),
        )
    };
    {
        let mut a = state.get_mut::<ext_one::Count>();
        a.0 += 1;
        if a.0 != n {
            lost("first", &a.0);
        }
    }
    {
        let mut b = state.get_mut::<ext_two::Count>();
        if b.0.len() as u64 != n - 1 || b.0.last().map_or(false, |x| *x != h - 31) {
            lost("second", &b.0);
        }
        b.0.push(h);
    }
    {
        // types that are the same but for a parameter
        let mut c = state.get_mut::<ExtWide<u64>>();
        if c.0 != if n == 1 { 0 } else { h - 31 } || (&*c as *const ExtWide<u64> as usize) % 128 != 0 {
            lost("third", &c.0);
        }
        c.0 = h;
    }
    {
        let mut d = state.get_mut::<ExtWide<i64>>();
        if d.0 != -(n as i64 - 1) {
            lost("fourth", &d.0);
        }
        d.0 -= 1;
    }
    // many more, each looked at from time to time
    if many_ext(h, n, state) {
        lost("one of many", &());
    }
    drop(state.get::<ext_one::Unit>());
    drop(state.get_mut::<ext_two::Unit>());
    // reading changes nothing, and two can be read at once
    let a = state.get::<ext_one::Count>();
    let b = state.get::<ext_two::Count>();
    if a.0 != n || b.0.len() as u64 != n {
        lost("first and second", &(&*a, &*b));
    }
}

/// Counts in some of the extensions, and returns if one of them is not as it was left.
fn many_ext<S: Extended>(h: u64, n: u64, state: &S) -> bool {
    macro_rules! touch {
        ($($n:literal)*) => {
            match (h ^ (h >> 29)) % 32 {
                $($n => {
                    let mut x = state.get_mut::<ExtNth<$n>>();
                    let before = w(|w| {
                        let many = &mut w.sessions[session() as usize].many_ext;
                        std::mem::replace(&mut many[$n], n)
                    });
                    let ok = x.0 == before;
                    x.0 = n;
                    !ok
                })*
                _ => false,
            }
        };
    }
    touch!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19)
}

fn own_name(real: Option<&str>, ord: u32, watch: Watch) -> Option<String> {
    if watch.unique_names {
        Some(format!("{}#{}", real.unwrap_or("-"), ord))
    } else {
        real.map(|x| x.to_string())
    }
}

// ---------------------------------------------------------------- instrumented sinks

#[derive(Clone, Copy, PartialEq)]
enum Role {
    Key,
    Value,
}

/// Wraps any sink and all sinks it hands out.
pub struct ISink<'a> {
    inner: Option<SinkHandle<'a>>,
    id: u32,
    ord: u32,
    watch: Watch,
    desc: Box<OwnDesc>,
    canary: Canary,
    lent: Lent,
    parent: Option<&'a Cell<u64>>,
    role: Role,
    loc: Vec<Seg>,
    view: View,
    key: Rc<RefCell<Seg>>,
    parent_key: Option<Rc<RefCell<Seg>>>,
    index: u64,
    is_map: bool,
    is_container: bool,
    proto: Proto,
}

impl<'a> ISink<'a> {
    pub fn root(inner: SinkHandle<'a>, watch: Watch) -> SinkHandle<'a> {
        let _g = untracked();
        SinkHandle::boxed(ISink::make(
            inner,
            0,
            watch,
            None,
            Role::Value,
            Vec::new(),
            View::default(),
            None,
        ))
    }

    #[allow(clippy::too_many_arguments)]
    fn make(
        inner: SinkHandle<'a>,
        parent_id: u32,
        watch: Watch,
        parent: Option<&'a Cell<u64>>,
        role: Role,
        loc: Vec<Seg>,
        view: View,
        parent_key: Option<Rc<RefCell<Seg>>>,
    ) -> ISink<'a> {
        let id = new_obj("sink", parent_id);
        let ord = next_ord();
        set_who(id, Who::S(ord));
        let desc = OwnDesc::of(inner.descriptor(), ord, watch);
        ISink {
            inner: Some(inner),
            id,
            ord,
            watch,
            desc,
            canary: Canary::new(),
            lent: Lent::new(),
            parent,
            role,
            loc,
            view,
            key: Rc::new(RefCell::new(Seg::Unknown)),
            parent_key,
            index: 0,
            is_map: false,
            is_container: false,
            proto: Proto::default(),
        }
    }

    fn inside(&self) -> View {
        View {
            depth: self.view.depth + 1,
            top: Some(describe(&*self.desc)),
        }
    }

    fn look(&self, what: &str, state: &DeserializerState, inside: bool, expect: Expect) {
        let _g = untracked();
        poke(self.parent);
        if self.watch.state {
            let exp = if inside { self.inside() } else { self.view.clone() };
            check_view(
                what,
                state.depth(),
                state
                    .top_descriptor()
                    .map(|d| describe(d)),
                &exp,
            );
            bump_ext(what, state);
        }
        if self.watch.path {
            let path = state.get::<Path>();
            if self.role == Role::Key {
                // a key has no location of its own
                check_path(&path, &self.loc, Expect::Prefix, what);
            } else {
                check_path(&path, &self.loc, expect, what);
            }
        }
    }

    fn inner(&mut self) -> &mut SinkHandle<'a> {
        self.inner.as_mut().unwrap()
    }
}

impl<'a> Drop for ISink<'a> {
    fn drop(&mut self) {
        poke(self.parent);
        let (canary, id) = (&self.canary, self.id);
        drop_inner(&mut self.inner, || {
            canary.0.set(0xdead);
            drop_obj(id);
        });
    }
}

impl<'a> Sink for ISink<'a> {
    fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.lent.renew();
        if self.watch.protocol {
            self.proto.atom(self.id);
        }
        self.look("atom", state, false, Expect::Exact);
        if let Some(ref key) = self.parent_key {
            let _g = untracked();
            *key.borrow_mut() = seg_of_key(&atom);
        }
        cb(self.id, Op::Atom)?;
        self.inner().atom(atom, state)?;
        cb_post(self.id, Op::Atom)
    }

    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.lent.renew();
        if self.watch.protocol {
            self.proto.map(self.id);
        }
        self.look("map", state, false, Expect::BelowUnknown);
        self.is_map = true;
        self.is_container = true;
        cb(self.id, Op::Map)?;
        self.inner().map(state)?;
        cb_post(self.id, Op::Map)
    }

    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.lent.renew();
        if self.watch.protocol {
            self.proto.seq(self.id);
        }
        self.look("seq", state, false, Expect::BelowUnknown);
        self.is_container = true;
        cb(self.id, Op::Seq)?;
        self.inner().seq(state)?;
        cb_post(self.id, Op::Seq)
    }

    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.lent.renew();
        if self.watch.protocol {
            self.proto.next_key(self.id);
        }
        self.look("next_key", state, true, Expect::BelowUnknown);
        cb(self.id, Op::DeNextKey)?;
        let view = { let _g = untracked(); self.inside() };
        *self.key.borrow_mut() = Seg::Unknown;
        let inner = self.inner.as_mut().unwrap().next_key(state)?;
        let _g = untracked();
        let rv = ISink::make(
            inner,
            self.id,
            self.watch,
            Some(self.lent.get()),
            Role::Key,
            self.loc.clone(),
            view,
            Some(self.key.clone()),
        );
        cb_post(self.id, Op::DeNextKey)?;
        Ok(SinkHandle::boxed(rv))
    }

    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        self.lent.renew();
        if self.watch.protocol {
            self.proto.next_value(self.id);
        }
        self.look("next_value", state, true, Expect::Below);
        cb(self.id, Op::DeNextVal)?;
        let (view, loc) = {
            let _g = untracked();
            let mut loc = self.loc.clone();
            // locations inside of keys are not specified
            if self.role == Role::Value {
                if self.is_map {
                    loc.push(self.key.borrow().clone());
                } else {
                    loc.push(Seg::Index(self.index));
                }
            }
            self.index += 1;
            (self.inside(), loc)
        };
        let inner = self.inner.as_mut().unwrap().next_value(state)?;
        let _g = untracked();
        let rv = ISink::make(
            inner,
            self.id,
            self.watch,
            Some(self.lent.get()),
            self.role,
            loc,
            view,
            None,
        );
        cb_post(self.id, Op::DeNextVal)?;
        Ok(SinkHandle::boxed(rv))
    }

    fn value_for_key(
        &mut self,
        key: &str,
        state: &DeserializerState,
    ) -> Result<Option<SinkHandle>, Error> {
        self.lent.renew();
        self.inner().value_for_key(key, state)
    }

    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.lent.renew();
        if self.watch.protocol {
            self.proto.finish(self.id);
        }
        self.look("finish", state, self.is_container, Expect::Exact);
        cb(self.id, Op::DeFin)?;
        self.inner().finish(state)?;
        cb_post(self.id, Op::DeFin)
    }

    fn descriptor(&self) -> &dyn Descriptor {
        &*self.desc
    }

    fn expecting(&self) -> Cow<'_, str> {
        self.inner.as_ref().unwrap().expecting()
    }
}

impl<'a> ISink<'a> {
    #[allow(dead_code)]
    pub fn ord(&self) -> u32 {
        self.ord
    }
}

// ---------------------------------------------------------------- instrumented serializables

/// Wraps any serializable, the emitters it creates and everything they hand out.
pub struct ISer<'a> {
    inner: Option<SerializeHandle<'a>>,
    id: u32,
    ord: u32,
    watch: Watch,
    desc: Box<OwnDesc>,
    canary: Canary,
    parent: Option<&'a Cell<u64>>,
    role: Role,
    loc: Vec<Seg>,
    view: View,
    parent_key: Option<Rc<RefCell<Seg>>>,
    text: OnceCell<Box<str>>,
    bytes: OnceCell<Box<[u8]>>,
}

impl<'a> ISer<'a> {
    pub fn root(inner: SerializeHandle<'a>, watch: Watch) -> ISer<'a> {
        let _g = untracked();
        ISer::make(
            inner,
            0,
            watch,
            None,
            Role::Value,
            Vec::new(),
            View::default(),
            None,
        )
    }

    #[allow(clippy::too_many_arguments)]
    fn make(
        inner: SerializeHandle<'a>,
        parent_id: u32,
        watch: Watch,
        parent: Option<&'a Cell<u64>>,
        role: Role,
        loc: Vec<Seg>,
        view: View,
        parent_key: Option<Rc<RefCell<Seg>>>,
    ) -> ISer<'a> {
        let id = new_obj("serializable", parent_id);
        let ord = next_ord();
        set_who(id, Who::S(ord));
        let desc = OwnDesc::of(inner.descriptor(), ord, watch);
        ISer {
            inner: Some(inner),
            id,
            ord,
            watch,
            desc,
            canary: Canary::new(),
            parent,
            role,
            loc,
            view,
            parent_key,
            text: OnceCell::new(),
            bytes: OnceCell::new(),
        }
    }

    fn inner(&self) -> &SerializeHandle<'a> {
        self.inner.as_ref().unwrap()
    }

    fn core(&self) -> EmitterCore<'_> {
        let id = new_obj("emitter", self.id);
        set_who(id, Who::S(self.ord));
        EmitterCore {
            id,
            watch: self.watch,
            canary: Canary::new(),
            lent: Lent::new(),
            parent: &self.canary.0,
            loc: self.loc.clone(),
            view: View {
                depth: self.view.depth + 1,
                top: Some(describe(&*self.desc)),
            },
            role: self.role,
            key: Rc::new(RefCell::new(Seg::Unknown)),
            index: 0,
        }
    }
}

fn look_ser(watch: Watch, role: Role, loc: &[Seg], view: &View, what: &str, state: &SerializerState) {
    let _g = untracked();
    if watch.state {
        check_view(
            what,
            state.depth(),
            state
                .top_descriptor()
                .map(|d| describe(d)),
            view,
        );
        bump_ext(what, state);
    }
    if watch.path && role == Role::Value {
        check_path(&state.get::<Path>(), loc, Expect::Exact, what);
    }
}

impl<'a> Drop for ISer<'a> {
    fn drop(&mut self) {
        poke(self.parent);
        let (canary, id) = (&self.canary, self.id);
        drop_inner(&mut self.inner, || {
            canary.0.set(0xdead);
            drop_obj(id);
        });
    }
}

impl<'a> Serialize for ISer<'a> {
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        poke(self.parent);
        look_ser(self.watch, self.role, &self.loc, &self.view, "serialize", state);
        cb(self.id, Op::Ser)?;
        let chunk = self.inner().serialize(state)?;
        let _g = untracked();
        let rv = match chunk {
            Chunk::Atom(atom) => {
                if let Some(ref key) = self.parent_key {
                    *key.borrow_mut() = seg_of_key(&atom);
                }
                Chunk::Atom(match atom {
                    // borrow from the serializable itself
                    Atom::Str(s) => Atom::Str(Cow::Borrowed(
                        self.text.get_or_init(|| s.into_owned().into_boxed_str()),
                    )),
                    Atom::Bytes(s) => Atom::Bytes(Cow::Borrowed(
                        self.bytes.get_or_init(|| s.into_owned().into_boxed_slice()),
                    )),
                    other => other,
                })
            }
            Chunk::Struct(inner) => Chunk::Struct(Box::new(IStruct {
                inner: Some(inner),
                core: self.core(),
                key_buf: String::new(),
            })),
            Chunk::Map(inner) => Chunk::Map(Box::new(IMap {
                inner: Some(inner),
                core: self.core(),
            })),
            Chunk::Seq(inner) => Chunk::Seq(Box::new(ISeq {
                inner: Some(inner),
                core: self.core(),
            })),
        };
        cb_post(self.id, Op::Ser)?;
        Ok(rv)
    }

    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        poke(self.parent);
        look_ser(self.watch, self.role, &self.loc, &self.view, "finish", state);
        cb(self.id, Op::SerFin)?;
        self.inner().finish(state)
    }

    fn is_optional(&self) -> bool {
        self.inner().is_optional()
    }

    fn descriptor(&self) -> &dyn Descriptor {
        &*self.desc
    }
}

struct EmitterCore<'a> {
    id: u32,
    watch: Watch,
    canary: Canary,
    lent: Lent,
    parent: &'a Cell<u64>,
    loc: Vec<Seg>,
    view: View,
    role: Role,
    key: Rc<RefCell<Seg>>,
    index: u64,
}

impl<'a> EmitterCore<'a> {
    fn enter(&mut self, op: Op, state: &SerializerState) -> Result<(), Error> {
        self.lent.renew();
        poke(Some(self.parent));
        look_ser(self.watch, self.role, &self.loc, &self.view, "emitter", state);
        cb(self.id, op)
    }

    fn child<'b>(&'b self, inner: SerializeHandle<'b>, seg: Seg) -> ISer<'b> {
        let mut loc = self.loc.clone();
        loc.push(seg);
        ISer::make(
            inner,
            self.id,
            self.watch,
            Some(self.lent.get()),
            self.role,
            loc,
            self.view.clone(),
            None,
        )
    }
}

impl<'a> Drop for EmitterCore<'a> {
    fn drop(&mut self) {
        let _g = untracked();
        poke(Some(self.parent));
        self.canary.0.set(0xdead);
        drop_obj(self.id);
        cb_drop();
    }
}

macro_rules! drop_inner {
    ($ty:ident) => {
        impl<'a> Drop for $ty<'a> {
            fn drop(&mut self) {
                let _g = tracked();
                self.inner = None;
            }
        }
    };
}

struct IStruct<'a> {
    inner: Option<Box<dyn StructEmitter + 'a>>,
    core: EmitterCore<'a>,
    key_buf: String,
}
drop_inner!(IStruct);

impl<'a> StructEmitter for IStruct<'a> {
    fn next(
        &mut self,
        state: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        self.core.enter(Op::Next, state)?;
        let rv = match self.inner.as_mut().unwrap().next(state)? {
            Some((key, handle)) => {
                let _g = untracked();
                let (key, owned) = match key {
                    Cow::Owned(key) => (key.clone(), Some(key)),
                    Cow::Borrowed(key) => (key.to_string(), None),
                };
                self.key_buf = key;
                let child = self.core.child(handle, Seg::Key(self.key_buf.clone()));
                // the key borrows from the emitter, if it borrowed before
                Some((
                    match owned {
                        Some(key) => Cow::Owned(key),
                        None => Cow::Borrowed(&self.key_buf[..]),
                    },
                    SerializeHandle::boxed(child),
                ))
            }
            None => None,
        };
        cb_post(self.core.id, Op::Next)?;
        Ok(rv)
    }
}

struct IMap<'a> {
    inner: Option<Box<dyn MapEmitter + 'a>>,
    core: EmitterCore<'a>,
}
drop_inner!(IMap);

impl<'a> MapEmitter for IMap<'a> {
    fn next_key(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.core.enter(Op::NextKey, state)?;
        *self.core.key.borrow_mut() = Seg::Unknown;
        let rv = match self.inner.as_mut().unwrap().next_key(state)? {
            Some(handle) => {
                let _g = untracked();
                let core = &self.core;
                Some(SerializeHandle::boxed(ISer::make(
                    handle,
                    core.id,
                    core.watch,
                    Some(core.lent.get()),
                    Role::Key,
                    core.loc.clone(),
                    core.view.clone(),
                    Some(core.key.clone()),
                )))
            }
            None => None,
        };
        cb_post(self.core.id, Op::NextKey)?;
        Ok(rv)
    }

    fn next_value(&mut self, state: &SerializerState) -> Result<SerializeHandle, Error> {
        self.core.enter(Op::NextVal, state)?;
        let handle = self.inner.as_mut().unwrap().next_value(state)?;
        let rv = {
            let _g = untracked();
            let seg = self.core.key.borrow().clone();
            SerializeHandle::boxed(self.core.child(handle, seg))
        };
        cb_post(self.core.id, Op::NextVal)?;
        Ok(rv)
    }
}

struct ISeq<'a> {
    inner: Option<Box<dyn SeqEmitter + 'a>>,
    core: EmitterCore<'a>,
}
drop_inner!(ISeq);

impl<'a> SeqEmitter for ISeq<'a> {
    fn next(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.core.enter(Op::Next, state)?;
        let index = self.core.index;
        self.core.index += 1;
        let rv = match self.inner.as_mut().unwrap().next(state)? {
            Some(handle) => {
                let _g = untracked();
                Some(SerializeHandle::boxed(
                    self.core.child(handle, Seg::Index(index)),
                ))
            }
            None => None,
        };
        cb_post(self.core.id, Op::Next)?;
        Ok(rv)
    }
}

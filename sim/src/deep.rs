//! C11: the stack does not grow with the depth of the data.
use crate::alloc;
use crate::core::*;
use crate::drive::*;
use crate::json;
use crate::model::{Node, Val};
use crate::sched;
use crate::types::{List, Sim, Tree};
use deser::de::{Deserialize, DeserializeDriver, DeserializerState, Sink, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState,
    StructEmitter,
};
use deser::{Atom, Error, Event};
use deser::Descriptor;
use deser_path::{Path, PathSegment, PathSerializable, PathSink};
use std::borrow::Cow;
use std::sync::Arc;

fn note_stack() {
    let sp = stack_pointer();
    w(|w| w.low_stack = w.low_stack.min(sp));
}

/// What is on each level of the nesting.
#[derive(Clone)]
pub struct Shape {
    /// 0: sequence, 1: map, 2: struct, 3: map with a container as key
    kinds: Arc<Vec<u8>>,
    /// siblings in front of the nested value
    siblings: usize,
    /// what the callbacks look at
    watch: Watched,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Watched {
    Nothing,
    State,
    Path,
}

/// Containers on levels next to each other have different descriptors.
struct LevelDesc(&'static str);

impl Descriptor for LevelDesc {
    fn name(&self) -> Option<&str> {
        Some(self.0)
    }
}

static LEVELS: [LevelDesc; 7] = [
    LevelDesc("a"),
    LevelDesc("b"),
    LevelDesc("c"),
    LevelDesc("d"),
    LevelDesc("e"),
    LevelDesc("f"),
    LevelDesc("g"),
];

fn level_desc(level: usize) -> &'static LevelDesc {
    &LEVELS[level % LEVELS.len()]
}

/// Checks what the state says while `open` containers are open.
fn check_level(what: &str, open: usize, depth: usize, top: Option<&str>) {
    count("checks.deep_state");
    let exp = open.checked_sub(1).map(|level| level_desc(level).0);
    if depth != open || top != exp {
        violate(
            "wrong-depth",
            format!(
                "{} with {} open containers: the depth is {}, the top descriptor {:?} instead of {:?}",
                what, open, depth, top, exp
            ),
        );
    }
}

impl Shape {
    fn kind(&self, level: usize) -> u8 {
        self.kinds[level % self.kinds.len()]
    }

    /// Looks at the location of a value on a level, which is behind the siblings.
    fn check_path(&self, what: &str, level: usize, nth: Option<usize>, path: &Path) {
        count("checks.deep_path");
        let exp = level.checked_sub(1).map(|up| {
            if self.kind(up) == 0 {
                PathSegment::Index(nth.unwrap_or(self.siblings))
            } else {
                PathSegment::Key("x".into())
            }
        });
        let segments = path.segments();
        let last = match (segments.last(), exp.as_ref()) {
            (None, None) => true,
            (Some(PathSegment::Index(a)), Some(PathSegment::Index(b))) => a == b,
            (Some(PathSegment::Key(a)), Some(PathSegment::Key(b))) => a == b,
            _ => false,
        };
        if segments.len() != level || !last {
            violate(
                "wrong-path",
                format!(
                    "{} at level {}: the path has {} segments and ends in {:?} instead of {:?}",
                    what,
                    level,
                    segments.len(),
                    segments.last(),
                    exp
                ),
            );
        }
    }
}

// ---------------------------------------------------------------- serialization

struct DeepSer {
    shape: Shape,
    level: usize,
    depth: usize,
}

impl DeepSer {
    fn below(&self) -> SerializeHandle<'static> {
        SerializeHandle::boxed(DeepSer {
            shape: self.shape.clone(),
            level: self.level + 1,
            depth: self.depth,
        })
    }
}

struct DeepEmitter {
    of: DeepSer,
    id: u32,
    index: usize,
    state: u8,
}

impl Drop for DeepEmitter {
    fn drop(&mut self) {
        note_stack();
    }
}

impl Drop for DeepSer {
    fn drop(&mut self) {
        note_stack();
    }
}

impl DeepSer {
    /// `open` is the number of containers around.
    fn look(&self, what: &str, open: usize, state: &SerializerState) {
        match self.shape.watch {
            Watched::Nothing => {}
            Watched::State => check_level(
                what,
                open,
                state.depth(),
                state.top_descriptor().and_then(|d| d.name()),
            ),
            Watched::Path => {
                self.shape
                    .check_path(what, self.level, None, &state.get::<Path>());
            }
        }
    }
}

impl Serialize for DeepSer {
    fn descriptor(&self) -> &dyn Descriptor {
        level_desc(self.level)
    }

    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        cb(0, Op::Ser)?;
        self.look("serialize", self.level, state);
        if self.level == self.depth {
            return Ok(Chunk::Atom(Atom::U64(7)));
        }
        let emitter = Box::new(DeepEmitter {
            of: DeepSer {
                shape: self.shape.clone(),
                level: self.level,
                depth: self.depth,
            },
            id: 0,
            index: 0,
            state: 0,
        });
        Ok(match self.shape.kind(self.level) {
            0 => Chunk::Seq(emitter),
            2 => Chunk::Struct(emitter),
            _ => Chunk::Map(emitter),
        })
    }

    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        cb(0, Op::SerFin)?;
        self.look("finish", self.level, state);
        Ok(())
    }
}

impl DeepEmitter {
    fn look(&self, what: &str, state: &SerializerState) {
        if self.of.shape.watch == Watched::State {
            self.of.look(what, self.of.level + 1, state);
        }
    }

    fn step(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle<'static>>, Error> {
        cb(self.id, Op::Next)?;
        self.look("next", state);
        self.index += 1;
        let last = self.of.shape.siblings + 1;
        Ok(if self.index < last {
            Some(SerializeHandle::boxed(1u64))
        } else if self.index == last {
            Some(self.of.below())
        } else {
            None
        })
    }
}

impl SeqEmitter for DeepEmitter {
    fn next(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        self.step(state)
    }
}

impl StructEmitter for DeepEmitter {
    fn next(
        &mut self,
        state: &SerializerState,
    ) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        Ok(self.step(state)?.map(|h| (Cow::Borrowed("x"), h)))
    }
}

impl MapEmitter for DeepEmitter {
    fn next_key(&mut self, state: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        cb(self.id, Op::NextKey)?;
        self.look("next_key", state);
        if self.of.shape.kind(self.of.level) == 3 {
            // everything is in the key
            self.state += 1;
            return Ok(if self.state == 1 { Some(self.of.below()) } else { None });
        }
        Ok(if self.index <= self.of.shape.siblings {
            Some(SerializeHandle::boxed("x".to_string()))
        } else {
            None
        })
    }

    fn next_value(&mut self, state: &SerializerState) -> Result<SerializeHandle, Error> {
        if self.of.shape.kind(self.of.level) == 3 {
            return Ok(SerializeHandle::boxed(1u64));
        }
        Ok(self.step(state)?.expect("there is a value"))
    }
}

// ---------------------------------------------------------------- deserialization

/// Accepts everything, keeps the number of events.
struct Deep(u64);

struct DeepSink<'a> {
    out: Option<&'a mut Option<Deep>>,
    count: Arc<std::sync::atomic::AtomicU64>,
    watch: Watched,
    /// for the path
    shape: Option<Shape>,
    level: usize,
    is_key: bool,
    nth: usize,
    container: bool,
    /// the values handed out
    values: usize,
}

impl<'a> Drop for DeepSink<'a> {
    fn drop(&mut self) {
        note_stack();
    }
}

impl Deserialize for Deep {
    fn deserialize_into(out: &mut Option<Self>) -> SinkHandle {
        SinkHandle::boxed(DeepSink::new(Some(out), None))
    }
}

impl<'a> DeepSink<'a> {
    fn new(out: Option<&'a mut Option<Deep>>, shape: Option<Shape>) -> DeepSink<'a> {
        DeepSink {
            out,
            count: Default::default(),
            watch: shape.as_ref().map_or(Watched::Nothing, |s| s.watch),
            shape,
            level: 0,
            is_key: false,
            nth: 0,
            container: false,
            values: 0,
        }
    }
    fn hit(&self, op: Op) -> Result<(), Error> {
        self.count.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        cb(0, op)
    }
    fn look(&self, what: &str, open: usize, state: &DeserializerState) {
        match self.watch {
            Watched::Nothing => {}
            Watched::State => check_level(
                what,
                open,
                state.depth(),
                state.top_descriptor().and_then(|d| d.name()),
            ),
            Watched::Path => {
                if let Some(ref shape) = self.shape {
                    // containers see more of the path, see the notes on `Expect`
                    if !self.is_key && open == self.level && what != "seq" && what != "map" {
                        shape.check_path(what, self.level, Some(self.nth), &state.get::<Path>());
                    }
                }
            }
        }
    }
    fn child<'b>(&mut self, is_key: bool) -> SinkHandle<'b> {
        let nth = self.values;
        if !is_key {
            self.values += 1;
        }
        SinkHandle::boxed(DeepSink {
            out: None,
            count: self.count.clone(),
            watch: self.watch,
            shape: self.shape.clone(),
            level: self.level + 1,
            is_key,
            nth,
            container: false,
            values: 0,
        })
    }
}

impl<'a> Sink for DeepSink<'a> {
    fn atom(&mut self, _: Atom, state: &DeserializerState) -> Result<(), Error> {
        self.look("atom", self.level, state);
        self.hit(Op::Atom)
    }
    fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.look("map", self.level, state);
        self.container = true;
        self.hit(Op::Map)
    }
    fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
        self.look("seq", self.level, state);
        self.container = true;
        self.hit(Op::Seq)
    }
    fn next_key(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        cb(0, Op::DeNextKey)?;
        self.look("next_key", self.level + 1, state);
        Ok(self.child(true))
    }
    fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
        cb(0, Op::DeNextVal)?;
        self.look("next_value", self.level + 1, state);
        Ok(self.child(false))
    }
    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
        cb(0, Op::DeFin)?;
        if self.watch == Watched::State || !self.container {
            self.look("finish", self.level + self.container as usize, state);
        }
        if let Some(ref mut out) = self.out {
            **out = Some(Deep(self.count.load(std::sync::atomic::Ordering::SeqCst)));
        }
        Ok(())
    }
    fn descriptor(&self) -> &dyn Descriptor {
        level_desc(self.level)
    }
}

// ---------------------------------------------------------------- the nested data

/// The opening events down to the depth, the leaf, and the closing ones.
fn nested_events(shape: &Shape, depth: usize) -> Vec<Event<'static>> {
    let mut rv = Vec::new();
    let mut close = Vec::new();
    for level in 0..depth {
        match shape.kind(level) {
            0 => {
                rv.push(Event::SeqStart);
                for _ in 0..shape.siblings {
                    rv.push(1u64.into());
                }
                close.push((false, Event::SeqEnd));
            }
            3 => {
                rv.push(Event::MapStart);
                close.push((true, Event::MapEnd));
            }
            _ => {
                rv.push(Event::MapStart);
                for _ in 0..shape.siblings {
                    rv.push("x".to_string().into());
                    rv.push(1u64.into());
                }
                rv.push("x".to_string().into());
                close.push((false, Event::MapEnd));
            }
        }
    }
    rv.push(7u64.into());
    for (value, end) in close.into_iter().rev() {
        if value {
            rv.push(1u64.into());
        }
        rv.push(end);
    }
    rv
}

fn nested_text(shape: &Shape, depth: usize) -> String {
    let mut rv = String::new();
    let mut close = String::new();
    for level in 0..depth {
        if shape.kind(level) == 0 {
            rv.push('[');
            for _ in 0..shape.siblings {
                rv.push_str("1,");
            }
            close.push(']');
        } else {
            rv.push('{');
            for _ in 0..shape.siblings {
                rv.push_str("\"x\":1,");
            }
            rv.push_str("\"x\":");
            close.push('}');
        }
    }
    rv.push('7');
    rv.extend(close.chars().rev());
    rv
}

fn deep_tree(depth: usize) -> Tree {
    let mut t = Tree::leaf();
    for _ in 0..depth {
        let mut p = Tree::leaf();
        p.kids.push(t);
        t = p;
    }
    t
}

fn tree_events(depth: usize) -> Vec<Event<'static>> {
    let mut rv: Vec<Event<'static>> = Vec::new();
    for level in 0..=depth {
        rv.push(Event::MapStart);
        rv.push("v".to_string().into());
        rv.push(5u64.into());
        rv.push("kids".to_string().into());
        rv.push(Event::SeqStart);
        if level == depth {
            break;
        }
    }
    for _ in 0..=depth {
        rv.push(Event::SeqEnd);
        rv.push(Event::MapEnd);
    }
    rv
}

fn dismantle_tree(t: Tree) -> usize {
    let mut n = 0;
    let mut todo = vec![t];
    while let Some(mut t) = todo.pop() {
        n += 1;
        todo.append(&mut t.kids);
    }
    n
}

fn deep_list(depth: usize) -> List {
    let mut l = List::leaf();
    for _ in 0..depth {
        let mut p = List::leaf();
        p.next = Some(Box::new(l));
        l = p;
    }
    l
}

fn list_events(depth: usize) -> Vec<Event<'static>> {
    let mut rv: Vec<Event<'static>> = Vec::new();
    for level in 0..=depth {
        rv.push(Event::MapStart);
        rv.push("v".to_string().into());
        rv.push(5u64.into());
        rv.push("next".to_string().into());
        if level == depth {
            rv.push(().into());
        }
    }
    for _ in 0..=depth {
        rv.push(Event::MapEnd);
    }
    rv
}

fn dismantle_list(l: List) -> usize {
    let mut n = 0;
    let mut next = Some(Box::new(l));
    while let Some(mut l) = next {
        n += 1;
        next = l.next.take();
    }
    n
}

fn dismantle_opt<T>(v: Option<T>, f: fn(T) -> usize) -> usize {
    v.map_or(0, f)
}

// ---------------------------------------------------------------- the workload

/// Ends a session early: the number of events which are handled.
type Stop = Option<usize>;

fn feed(driver: &mut DeserializeDriver, events: &[Event<'static>], stop: Stop) -> Result<(), Error> {
    for (i, e) in events.iter().enumerate() {
        if stop == Some(i) {
            return Ok(());
        }
        driver.emit(e.to_static())?;
    }
    Ok(())
}

fn pull(value: &dyn Serialize, stop: Stop) -> Result<usize, Error> {
    let mut n = 0;
    let mut driver = SerializeDriver::new(value);
    while driver.next()?.is_some() {
        n += 1;
        if stop == Some(n) {
            break;
        }
    }
    Ok(n)
}

#[derive(Clone)]
pub struct Plan {
    what: u64,
    layer: u64,
    shape: Shape,
    fault: Fault,
    /// in thousandths of the events or callbacks
    at: u64,
    stop: bool,
}

const WHAT: [&str; 9] = [
    "serialize nested containers",
    "write nested containers as JSON",
    "deserialize nested containers",
    "read nested containers from JSON",
    "deserialize an ignored field",
    "read an ignored JSON field",
    "deserialize a recursive struct",
    "deserialize a linked list",
    "serialize a recursive type",
];

/// One session; returns the number of events (or what stands for it).
pub fn session_at(plan: &Plan, depth: usize) -> Outcome<usize> {
    let stop_of = |n: usize| -> Stop {
        if plan.stop {
            Some((n as u64 * plan.at / 1000) as usize)
        } else {
            None
        }
    };
    match plan.what {
        0 => {
            let root = DeepSer {
                shape: plan.shape.clone(),
                level: 0,
                depth,
            };
            let stop = stop_of(nested_events(&plan.shape, depth).len());
            guarded(|| {
                if plan.layer == 0 {
                    pull(&root, stop)
                } else {
                    pull(&PathSerializable::wrap(&root), stop)
                }
            })
        }
        1 => {
            let root = DeepSer {
                shape: plan.shape.clone(),
                level: 0,
                depth,
            };
            let exp = nested_text(&plan.shape, depth);
            let out = guarded(|| {
                if plan.layer == 0 {
                    deser_json::to_string(&root)
                } else {
                    deser_json::to_string(&PathSerializable::wrap(&root))
                }
            });
            match out {
                Outcome::Ok(text) => {
                    if text != exp {
                        violate("wrong-document", format!("wrong document at depth {}", depth));
                    }
                    Outcome::Ok(text.len())
                }
                other => convert(other),
            }
        }
        2 => {
            let events = nested_events(&plan.shape, depth);
            let stop = stop_of(events.len());
            let mut out: Option<Deep> = None;
            let rv = guarded(|| {
                let sink = Deep::deserialize_into(&mut out);
                let mut driver = if plan.layer == 0 {
                    DeserializeDriver::from_sink(sink)
                } else {
                    DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)))
                };
                feed(&mut driver, &events, stop)
            });
            match rv {
                Outcome::Ok(()) => {
                    if out.is_none() && stop.is_none() {
                        violate("lost-value", format!("no value at depth {}", depth));
                    }
                    Outcome::Ok(out.map_or(0, |x| x.0 as usize))
                }
                other => convert(other),
            }
        }
        3 => {
            let mut text = nested_text(&plan.shape, depth);
            if plan.stop {
                text.truncate((text.len() as u64 * plan.at / 1000) as usize);
            }
            let rv = guarded(|| deser_json::from_str::<Deep>(&text));
            match rv {
                Outcome::Ok(v) => {
                    if plan.stop {
                        violate("truncated-accepted", format!("at depth {}", depth));
                    }
                    Outcome::Ok(v.0 as usize)
                }
                Outcome::Err(_) if plan.stop => Outcome::Ok(0),
                other => convert(other),
            }
        }
        4 => {
            let mut events: Vec<Event<'static>> = vec![Event::MapStart, "unknown".to_string().into()];
            events.extend(nested_events(&plan.shape, depth));
            events.push(Event::MapEnd);
            let stop = stop_of(events.len());
            let mut out: Option<crate::types::Empty> = None;
            let rv = guarded(|| {
                let sink = crate::types::Empty::deserialize_into(&mut out);
                let mut driver = if plan.layer == 0 {
                    DeserializeDriver::from_sink(sink)
                } else {
                    DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)))
                };
                feed(&mut driver, &events, stop)
            });
            convert_unit(rv, out.is_some() || plan.stop, depth)
        }
        5 => {
            let mut text = format!("{{\"unknown\":{}}}", nested_text(&plan.shape, depth));
            if plan.stop {
                text.truncate((text.len() as u64 * plan.at / 1000) as usize);
            }
            match guarded(|| deser_json::from_str::<crate::types::Empty>(&text)) {
                Outcome::Ok(_) if !plan.stop => Outcome::Ok(1),
                Outcome::Err(_) if plan.stop => Outcome::Ok(0),
                Outcome::Ok(_) => {
                    violate("truncated-accepted", format!("at depth {}", depth));
                    Outcome::Ok(0)
                }
                other => convert(other),
            }
        }
        6 => {
            let events = tree_events(depth);
            let stop = stop_of(events.len() / 2);
            let mut out: Option<Tree> = None;
            let rv = guarded(|| {
                let sink = Tree::deserialize_into(&mut out);
                let mut driver = if plan.layer == 0 {
                    DeserializeDriver::from_sink(sink)
                } else {
                    DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)))
                };
                feed(&mut driver, &events, stop)
            });
            let n = dismantle_opt(out, dismantle_tree);
            convert_unit(rv, n == depth + 1 || plan.stop, depth)
        }
        7 => {
            let events = list_events(depth);
            let stop = stop_of(events.len() / 2);
            let mut out: Option<List> = None;
            let rv = guarded(|| {
                let sink = List::deserialize_into(&mut out);
                let mut driver = if plan.layer == 0 {
                    DeserializeDriver::from_sink(sink)
                } else {
                    DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)))
                };
                feed(&mut driver, &events, stop)
            });
            let n = dismantle_opt(out, dismantle_list);
            convert_unit(rv, n == depth + 1 || plan.stop, depth)
        }
        _ => {
            let use_tree = plan.shape.siblings == 0;
            if use_tree {
                let t = deep_tree(depth);
                let stop = stop_of(tree_events(depth).len());
                let rv = guarded(|| {
                    if plan.layer == 0 {
                        pull(&t, stop)
                    } else {
                        pull(&PathSerializable::wrap(&t), stop)
                    }
                });
                dismantle_tree(t);
                rv
            } else {
                let t = deep_list(depth);
                let stop = stop_of(list_events(depth).len());
                let rv = guarded(|| {
                    if plan.layer == 0 {
                        pull(&t, stop)
                    } else {
                        pull(&PathSerializable::wrap(&t), stop)
                    }
                });
                dismantle_list(t);
                rv
            }
        }
    }
}

fn convert<T>(o: Outcome<T>) -> Outcome<usize> {
    match o {
        Outcome::Ok(_) => Outcome::Ok(0),
        Outcome::Err(e) => Outcome::Err(e),
        Outcome::Injected(n) => Outcome::Injected(n),
        Outcome::Alloc => Outcome::Alloc,
        Outcome::Panic(m) => Outcome::Panic(m),
        Outcome::Stop => Outcome::Stop,
    }
}

fn convert_unit(o: Outcome<()>, value: bool, depth: usize) -> Outcome<usize> {
    if o.is_ok() && !value {
        violate("lost-value", format!("no value, or an incomplete one, at depth {}", depth));
    }
    convert(o)
}

/// Runs a session on its own thread, returns the bytes of stack which were in use at most.
fn measure(plan: &Plan, depth: usize, stack: usize) -> usize {
    w(|w| {
        w.low_stack = usize::MAX;
        w.log_calls = false;
    });
    begin(Fault::None, u64::MAX);
    if plan.fault != Fault::None {
        // the number of callbacks is proportional to the depth
        let dry = Plan {
            fault: Fault::None,
            stop: false,
            ..plan.clone()
        };
        let n = {
            let _ = sched::on_thread(64 << 20, || session_at(&dry, 4));
            let n4 = points();
            begin(Fault::None, u64::MAX);
            let _ = sched::on_thread(64 << 20, || session_at(&dry, 8));
            let per = (points() - n4) / 4;
            per * depth as u64
        };
        // Faults are placed on the way down: a finished value of a recursive type is
        // dropped recursively by its own drop glue.
        let share = if matches!(plan.what, 6 | 7) { 450 } else { 1000 };
        begin(plan.fault, n * plan.at.min(share) / 1000);
        w(|w| w.low_stack = usize::MAX);
    }
    let sess = session();
    let used = std::thread::scope(|s| {
        let handle = std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                set_session(sess);
                let top = stack_pointer();
                let out = session_at(plan, depth);
                let fine = match out {
                    Outcome::Ok(_) => plan.fault == Fault::None || !fired(),
                    Outcome::Err(ref e) => injected_in(e).is_some(),
                    Outcome::Injected(_) => true,
                    _ => false,
                };
                tr(|| format!("depth {} -> {}", depth, out.describe()));
                if !fine {
                    violate(
                        "failed-at-depth",
                        format!("{} at depth {}: {}", WHAT[plan.what as usize], depth, out.describe()),
                    );
                }
                let low = w(|w| w.low_stack);
                top.saturating_sub(low)
            })
            .expect("can't spawn");
        handle.join()
    });
    used.unwrap_or(usize::MAX)
}

pub fn c11() {
    let what = draw(WHAT.len() as u64);
    let mut kinds: Vec<u8> = (0..1 + draw(4)).map(|_| draw(3) as u8).collect();
    if matches!(what, 0 | 2 | 4) && chance(1, 4) {
        kinds.push(3);
    }
    // a path segment per level, and names of containers as keys, take time
    let layer = if chance(1, 4) { 1 } else { 0 };
    let plan = Plan {
        what,
        layer,
        shape: Shape {
            kinds: Arc::new(kinds),
            siblings: draw(2) as usize,
            watch: Watched::Nothing,
        },
        fault: Fault::None,
        at: 0,
        stop: false,
    };
    let mut plan = plan;
    match draw(4) {
        0 => {}
        1 => {
            plan.stop = true;
            plan.at = draw(1000);
            if plan.what != 1 {
                count(if matches!(plan.what, 3 | 5) { "fault.truncation" } else { "fault.cancellation" });
            } else {
                plan.stop = false;
            }
        }
        2 if what != 5 => {
            plan.fault = Fault::Error;
            plan.at = draw(1000);
        }
        3 if what != 5 => {
            plan.fault = Fault::Panic;
            plan.at = draw(1000);
        }
        _ => {}
    }
    let depth = match draw(240) {
        // more levels than two bytes can count
        239 => 65_600 + draw(3000),
        200..=238 => 200 + draw(12_000),
        _ => 200 + draw(1500),
    } as usize;
    stir(depth as u64);
    stir(what);
    stir_str(&format!("{:?}{}{}", plan.shape.kinds, plan.stop, plan.at));
    nontrivial();
    count_n("depth.levels", depth as u64);
    tr(|| {
        format!(
            "{}: depth {} kinds {:?} fault {:?} at {}/1000 stop {}",
            WHAT[what as usize], depth, plan.shape.kinds, plan.fault, plan.at, plan.stop
        )
    });
    sample(|| {
        format!(
            "{} kinds {:?} depth {} {:?} {}",
            WHAT[what as usize], plan.shape.kinds, depth, plan.fault, plan.at
        )
    });
    let small = measure(&plan, 12, 1 << 20);
    if violated() {
        return;
    }
    // an overflow of this stack ends the process, which the supervisor reports
    let used = measure(&plan, depth, 192 << 10);
    tr(|| format!("stack in use: {} at depth 12, {} at depth {}", small, used, depth));
    if used != usize::MAX && small != usize::MAX && used > small + (16 << 10) {
        violate(
            "stack-grows",
            format!(
                "{} takes {} bytes of stack at depth 12, but {} at depth {}",
                WHAT[what as usize], small, used, depth
            ),
        );
    }
    let _ = (json::representable(&Node::str("")), Val::Unit, Tree::schema as fn() -> _);
}

/// C09 and C10 with more levels than fit into a byte, at times even more than fit into two.
pub fn deep_state(path: bool) {
    let mut kinds: Vec<u8> = (0..1 + draw(4)).map(|_| draw(3) as u8).collect();
    if !path && chance(1, 3) {
        kinds.push(3);
    }
    let shape = Shape {
        kinds: Arc::new(kinds),
        siblings: draw(2) as usize,
        watch: if path { Watched::Path } else { Watched::State },
    };
    let depth = match draw(40) {
        39 => 65_600 + draw(3000),
        25..=38 => 2000 + draw(14_000),
        _ => 200 + draw(1500),
    } as usize;
    let wrap = path || draw(2) == 1;
    let serialize = draw(2) == 1;
    let cancel = if chance(1, 4) { Some(draw(1000)) } else { None };
    stir(depth as u64);
    stir_str(&format!("{:?}{}{}", shape.kinds, wrap, serialize));
    nontrivial();
    count_n("depth.levels", depth as u64);
    sample(|| {
        format!(
            "{} {} nested containers, kinds {:?}",
            if serialize { "serialize" } else { "deserialize" },
            depth,
            shape.kinds
        )
    });
    w(|w| w.log_calls = false);
    let events = nested_events(&shape, depth);
    let stop = cancel.map_or(usize::MAX, |at| (events.len() as u64 * at / 1000) as usize);
    begin(Fault::None, u64::MAX);
    let between = |open: usize, got: usize, top: Option<&str>| {
        if !path {
            check_level("between events", open, got, top);
        }
    };
    let follow = |open: &mut usize, event: &Event| match event {
        Event::MapStart | Event::SeqStart => *open += 1,
        Event::MapEnd | Event::SeqEnd => *open -= 1,
        _ => {}
    };
    let rv = if serialize {
        let root = DeepSer {
            shape: shape.clone(),
            level: 0,
            depth,
        };
        guarded(|| {
            let wrapped;
            let root: &dyn Serialize = if wrap {
                wrapped = PathSerializable::wrap(&root);
                &wrapped
            } else {
                &root
            };
            let mut driver = SerializeDriver::new(root);
            let mut open = 0;
            let mut n = 0;
            while let Some((event, descriptor, state)) = driver.next()? {
                let end = matches!(event, Event::MapEnd | Event::SeqEnd);
                let start = matches!(event, Event::MapStart | Event::SeqStart);
                follow(&mut open, &event);
                between(open, state.depth(), state.top_descriptor().and_then(|d| d.name()));
                if (start || end) && descriptor.name() != Some(level_desc(open - start as usize).0) {
                    violate(
                        "wrong-top-descriptor",
                        format!("event {} has the descriptor {:?}", n, descriptor.name()),
                    );
                }
                if n >= stop || violated() {
                    return Ok(());
                }
                n += 1;
            }
            if n != events.len() {
                violate("wrong-history", format!("{} events instead of {}", n, events.len()));
            }
            Ok(())
        })
    } else {
        let mut out = None;
        guarded(|| {
            let sink = SinkHandle::boxed(DeepSink::new(Some(&mut out), Some(shape.clone())));
            let mut driver = if wrap {
                DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)))
            } else {
                DeserializeDriver::from_sink(sink)
            };
            let mut open = 0;
            for (n, event) in events.iter().enumerate() {
                if n >= stop || violated() {
                    return Ok(());
                }
                driver.emit(event.to_static())?;
                follow(&mut open, event);
                let state = driver.state();
                between(open, state.depth(), state.top_descriptor().and_then(|d| d.name()));
            }
            Ok(())
        })
    };
    if !rv.is_ok() && !violated() {
        violate("failed-at-depth", format!("at depth {}: {}", depth, rv.describe()));
    }
}

/// Any nesting without a fault.
pub fn plan_for_cost() -> Plan {
    Plan {
        what: draw(WHAT.len() as u64),
        layer: draw(2),
        shape: Shape {
            kinds: Arc::new((0..1 + draw(4)).map(|_| draw(3) as u8).collect()),
            siblings: draw(3) as usize,
            watch: Watched::Nothing,
        },
        fault: Fault::None,
        at: 0,
        stop: false,
    }
}

pub fn what_name(plan: &Plan) -> &'static str {
    WHAT[plan.what as usize]
}

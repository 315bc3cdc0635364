//! Running one serialization or deserialization session under a fault plan.
use crate::alloc;
use crate::core::*;
use crate::link;
use crate::model::{Face, encode, Node, SBody, SField, SNode, Schema, Val};
use crate::probe::{ISer, ISink, Watch};
use crate::sched::yield_point;
use crate::types::{catalog, DynSlot, DynVal, Gen, TypeOps};
use deser::de::DeserializeDriver;
use deser::ser::{Serialize, SerializeDriver, SerializeHandle};
use deser::{Atom, Event};
use deser_path::{Path, PathSegment, PathSerializable, PathSink};
use std::borrow::Cow;

// ---------------------------------------------------------------- cases

/// A type and a value of it, with everything the reference model knows about it.
pub struct Case {
    pub ops: TypeOps,
    pub schema: Schema,
    pub gen: Gen,
    pub value: Box<dyn DynVal>,
    pub val: Val,
    pub snode: SNode,
    pub node: Node,
}

impl Case {
    pub fn new(filter: impl Fn(&TypeOps, &Schema) -> bool, max: u64, non_finite: bool) -> Case {
        Case::any(filter, max, non_finite, true)
    }

    /// Without huge values.
    pub fn modest(filter: impl Fn(&TypeOps, &Schema) -> bool, max: u64, non_finite: bool) -> Case {
        Case::any(filter, max, non_finite, false)
    }

    fn any(filter: impl Fn(&TypeOps, &Schema) -> bool, max: u64, non_finite: bool, huge: bool) -> Case {
        let mut all: Vec<TypeOps> = catalog()
            .into_iter()
            .filter(|t| filter(t, &(t.schema)()))
            .collect();
        let mut size = any_size(huge);
        if size[0].max(size[1]) >= 4_000 {
            // of something simple
            let bytes = size[0] > 0 && draw(3) == 2;
            let wanted = |t: &TypeOps| match size[0] {
                0 => matches!(t.name, "String" | "Vec<String>" | "BTreeMap<String, String>"),
                _ if bytes => matches!(t.name, "Vec<u8>" | "Vec<Vec<u8>>" | "Option<Vec<u8>>"),
                _ => matches!(
                    t.name,
                    "Vec<bool>" | "Vec<u32>" | "Vec<i64>" | "Vec<char>" | "Vec<()>" | "Vec<Probe<u8>>" | "Vec<u8>" | "Vec<Color>"
                ),
            };
            if all.iter().any(wanted) {
                all.retain(wanted);
            } else {
                size = [0; 3];
            }
        }
        if size[2] > 0 {
            let deep: Vec<usize> = (0..all.len())
                .filter(|&i| matches!(all[i].name, "Tree" | "List" | "Nest" | "MapNest"))
                .collect();
            if !deep.is_empty() {
                let keep = deep[draw(deep.len() as u64) as usize];
                all.swap(0, keep);
                all.truncate(1);
            }
        }
        let ops = all.swap_remove(draw(all.len() as u64) as usize);
        let mut gen = Gen::live(max).sized(size);
        gen.non_finite = non_finite;
        Case::from_gen(ops, gen)
    }

    pub fn of_type(name: &str, max: u64) -> Case {
        let ops = catalog().into_iter().find(|t| t.name == name).unwrap();
        Case::from_gen(ops, Gen::live(max))
    }

    fn from_gen(ops: TypeOps, mut gen: Gen) -> Case {
        let value = (ops.gen)(&mut gen);
        let schema = (ops.schema)();
        let val = value.val();
        let snode = encode(&schema, &val);
        let node = snode.to_node();
        stir_str(ops.name);
        stir_str(&format!("{:?}", val.canon()));
        tr(|| format!("type {} value {:?}", ops.name, val.canon()));
        Case {
            ops,
            schema,
            gen,
            value,
            val,
            snode,
            node,
        }
    }

    pub fn names(&self) -> Vec<String> {
        link::names(&self.schema)
    }
}

/// Now and then things are larger than all the capacities reserved for them, and very rarely
/// there are more of them than two bytes can count.
fn any_size(huge: bool) -> [u64; 3] {
    let n = draw(3000);
    if huge && n == 2999 {
        count("reach.huge");
        return match draw(3) {
            0 => [0, 65_000 + draw(3000), 0],
            _ => [65_500 + draw(1000), 0, 0],
        };
    }
    match n % 300 {
        296 if huge => {
            count("reach.larger_than_pages");
            match draw(3) {
                0 => [0, 4_000 + draw(14_000), 0],
                _ => [4_000 + draw(14_000), 0, 0],
            }
        }
        297 => {
            count("reach.long_container");
            [130 + draw(300), 0, 0]
        }
        298 => {
            count("reach.long_string");
            [0, 100 + draw(3000), 0]
        }
        299 => {
            count("reach.deep_value");
            [0, 0, 125 + draw(200)]
        }
        _ => [0; 3],
    }
}

pub fn any_type(_: &TypeOps, _: &Schema) -> bool {
    true
}

pub fn sample(f: impl FnOnce() -> String) {
    let s = f();
    w(|w| {
        if w.sample.len() < 8 {
            w.sample.push(s)
        }
    });
}

// ---------------------------------------------------------------- common

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Layer {
    Bare,
    Inst,
    Path,
    PathInst,
}

pub fn any_layer() -> Layer {
    match draw(6) {
        0 => Layer::Bare,
        1 | 2 | 3 => Layer::Inst,
        4 => Layer::PathInst,
        _ => Layer::Path,
    }
}

impl Layer {
    pub fn inst(self) -> bool {
        matches!(self, Layer::Inst | Layer::PathInst)
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub layer: Layer,
    pub watch: Watch,
    pub fault: Fault,
    pub at: u64,
    pub alloc_at: Option<u64>,
    /// abandoned before the nth event
    pub cancel: Option<usize>,
    /// the driver is moved before the nth event
    pub relocate: Option<usize>,
    /// the number of further operations after a failure
    pub after: u64,
    /// strings are lent to the driver for the duration of the call only
    pub lend: bool,
    /// through `DeserializeDriver::new`
    pub direct: bool,
    /// the state of the driver is checked
    pub check_state: bool,
    /// the top descriptor after every event
    pub faces: Vec<Face>,
    /// the path in the state of the driver is checked after a failure
    pub check_path: bool,
    pub log_state: bool,
}

impl Cfg {
    pub fn new(layer: Layer) -> Cfg {
        Cfg {
            layer,
            watch: Watch::default(),
            fault: Fault::None,
            at: u64::MAX,
            alloc_at: None,
            cancel: None,
            relocate: None,
            after: 0,
            lend: false,
            direct: false,
            check_state: false,
            faces: Vec::new(),
            check_path: false,
            log_state: false,
        }
    }

    pub fn describe(&self) -> String {
        let mut rv = format!("{:?}", self.layer);
        if self.fault != Fault::None && self.at != u64::MAX {
            rv += &format!(" {:?}@{}", self.fault, self.at);
        }
        if let Some(n) = self.alloc_at {
            rv += &format!(" alloc@{}", n);
        }
        if let Some(n) = self.cancel {
            rv += &format!(" cancel@{}", n);
        }
        if let Some(n) = self.relocate {
            rv += &format!(" move@{}", n);
        }
        if self.after > 0 {
            rv += &format!(" then {} more", self.after);
        }
        rv
    }
}

pub struct Run {
    pub outcome: Outcome<()>,
    /// the number of events which went through without a failure
    pub done: usize,
    pub log: Vec<Item>,
    pub points: u64,
    pub allocs: u64,
    /// everything was delivered
    pub complete: bool,
    /// what the serializer produced
    pub events: Vec<Event<'static>>,
}

impl Run {
    fn new() -> Run {
        Run {
            outcome: Outcome::Ok(()),
            done: 0,
            log: Vec::new(),
            points: 0,
            allocs: 0,
            complete: false,
            events: Vec::new(),
        }
    }

    pub fn injected(&self) -> Option<u64> {
        match self.outcome {
            Outcome::Err(ref e) => injected_in(e),
            _ => None,
        }
    }
}

fn unit<T>(o: Outcome<T>) -> Outcome<()> {
    match o {
        Outcome::Ok(_) => Outcome::Ok(()),
        Outcome::Err(e) => Outcome::Err(e),
        Outcome::Injected(n) => Outcome::Injected(n),
        Outcome::Alloc => Outcome::Alloc,
        Outcome::Panic(m) => Outcome::Panic(m),
        Outcome::Stop => Outcome::Stop,
    }
}

pub fn chaos<R>(f: impl FnOnce() -> R) -> R {
    w(|w| w.chaos = true);
    let rv = f();
    w(|w| w.chaos = false);
    rv
}

/// Dropping must never fail.
pub fn drop_checked<T>(what: &str, value: T) {
    match guarded_v(|| drop(value)) {
        Outcome::Ok(()) => {}
        Outcome::Injected(_) if drop_fired() => {}
        other => violate(
            "panic-in-drop",
            format!("dropping the {} ended with {}", what, other.describe()),
        ),
    }
}

/// Drops a driver, sometimes on the way of a panic which has nothing to do with it.
pub fn drop_driver<T>(driver: T) {
    if !chance(1, 4) {
        return drop_checked("driver", driver);
    }
    count("fault.drop_while_unwinding");
    tr(|| "the driver is dropped by unwinding".to_string());
    let out = guarded_v(|| {
        let _driver = driver;
        std::panic::resume_unwind(Box::new(InjectedPanic(u64::MAX)));
    });
    if !matches!(out, Outcome::Injected(u64::MAX)) {
        violate(
            "panic-in-drop",
            format!("dropping the driver while unwinding ended with {}", out.describe()),
        );
    }
}

// ---------------------------------------------------------------- deserialization

fn lend_event<'a>(event: &Event<'static>, buf: &'a mut Vec<u8>) -> Event<'a> {
    match event {
        Event::Atom(Atom::Str(s)) => {
            buf.extend_from_slice(s.as_bytes());
            Event::Atom(Atom::Str(Cow::Borrowed(std::str::from_utf8(buf).unwrap())))
        }
        Event::Atom(Atom::Bytes(b)) => {
            buf.extend_from_slice(b);
            Event::Atom(Atom::Bytes(Cow::Borrowed(buf)))
        }
        other => other.to_static(),
    }
}

pub fn make_driver<'a>(slot: &'a mut dyn DynSlot, cfg: &Cfg) -> DeserializeDriver<'a> {
    match cfg.layer {
        Layer::Bare if cfg.direct => slot.driver(),
        Layer::Bare => DeserializeDriver::from_sink(slot.sink()),
        Layer::Inst => DeserializeDriver::from_sink(ISink::root(slot.sink(), cfg.watch)),
        Layer::Path => DeserializeDriver::from_sink(deser::de::SinkHandle::boxed(
            PathSink::wrap_ref(slot.sink()),
        )),
        Layer::PathInst => {
            let inner = ISink::root(slot.sink(), cfg.watch);
            DeserializeDriver::from_sink(deser::de::SinkHandle::boxed(PathSink::wrap_ref(inner)))
        }
    }
}

/// What the driver has to look like between two events.
struct DeModel {
    ords: u32,
    /// (ordinal, is map, next is key)
    open: Vec<(u32, bool, bool)>,
}

impl DeModel {
    fn feed(&mut self, event: &Event) {
        let ord = |m: &mut DeModel| {
            let o = m.ords;
            m.ords += 1;
            if let Some((_, true, key)) = m.open.last_mut() {
                *key = !*key;
            }
            o
        };
        match event {
            Event::Atom(_) => {
                ord(self);
            }
            Event::MapStart => {
                let o = ord(self);
                self.open.push((o, true, true));
            }
            Event::SeqStart => {
                let o = ord(self);
                self.open.push((o, false, false));
            }
            Event::MapEnd | Event::SeqEnd => {
                self.open.pop();
            }
        }
    }
}

/// Emits a value by way of its own type.
pub fn emit_native(driver: &mut DeserializeDriver, event: Event) -> Result<(), deser::Error> {
    match event {
        Event::Atom(Atom::Null) => driver.emit(()),
        Event::Atom(Atom::Bool(v)) => driver.emit(v),
        Event::Atom(Atom::Char(v)) => driver.emit(v),
        Event::Atom(Atom::U64(v)) if v % 2 == 0 => driver.emit(v as usize),
        Event::Atom(Atom::U64(v)) => driver.emit(v),
        Event::Atom(Atom::I64(v)) if v % 2 == 0 => driver.emit(v as isize),
        Event::Atom(Atom::I64(v)) => driver.emit(v),
        Event::Atom(Atom::F64(v)) => driver.emit(v),
        Event::Atom(Atom::Str(Cow::Borrowed(v))) if v.len() % 2 == 0 => driver.emit(v),
        Event::Atom(Atom::Str(Cow::Owned(v))) if v.len() % 2 == 0 => driver.emit(v),
        Event::Atom(Atom::Str(v)) => driver.emit(v),
        Event::Atom(Atom::Bytes(Cow::Borrowed(v))) => driver.emit(v),
        Event::Atom(atom) => driver.emit(atom),
        other => driver.emit(other),
    }
}

fn check_driver_state(
    driver: &DeserializeDriver,
    open: &[(u32, bool, bool)],
    cfg: &Cfg,
    what: &str,
    face: Option<&Face>,
) {
    let out = guarded_v(|| {
        (
            driver.state().depth(),
            driver
                .state()
                .top_descriptor()
                .map(|d| d.name().map(|x| x.to_string())),
            driver.state().top_descriptor().and_then(crate::probe::describe),
        )
    });
    count("checks.driver_state");
    let (depth, top, said) = match out {
        Outcome::Ok(x) => x,
        other => {
            violate("wrong-depth", format!("state: {}", other.describe()));
            return;
        }
    };
    if depth != open.len() {
        violate(
            "wrong-depth",
            format!(
                "{}: the state of the driver has depth {}, but {} containers are open",
                what,
                depth,
                open.len()
            ),
        );
    }
    let ok = match (open.last(), &top) {
        (None, None) => true,
        (Some((ord, ..)), Some(name)) => {
            if cfg.layer.inst() && cfg.watch.unique_names {
                name.as_deref()
                    .map_or(false, |n| n.ends_with(&format!("#{}", ord)))
            } else {
                true
            }
        }
        _ => false,
    };
    if !ok {
        violate(
            "wrong-top-descriptor",
            format!("{}: the top descriptor is {:?}, open are {:?}", what, top, open),
        );
    }
    if let Some(Face::Is(face)) = face {
        count("checks.driver_face");
        // the numbers which tell the names apart go away
        let plain = said.as_ref().and_then(|said| match said.find('#') {
            Some(at) if cfg.layer.inst() && cfg.watch.unique_names => {
                let rest = said[at + 1..].trim_start_matches(|c: char| c.is_ascii_digit());
                match format!("{}{}", &said[..at], rest) {
                    plain if plain == "-" => None,
                    plain => Some(plain),
                }
            }
            _ => Some(said.clone()),
        });
        if plain != *face {
            violate(
                "wrong-top-descriptor",
                format!("{}: the top descriptor is {:?}, expected {:?}", what, said, face),
            );
        }
    }
    drop(top);
    drop(said);
}

pub fn run_de(
    slot: &mut dyn DynSlot,
    events: &[Event<'static>],
    names: &[String],
    cfg: &Cfg,
) -> Run {
    let mut run = Run::new();
    begin(cfg.fault, cfg.at);
    alloc::reset_count();
    if let Some(n) = cfg.alloc_at {
        alloc::fail_at(n);
    }
    let mut driver = match guarded_v(|| make_driver(slot, cfg)) {
        Outcome::Ok(driver) => Box::new(driver),
        other => {
            run.allocs = alloc::count();
            alloc::reset_count();
            run.outcome = unit(other);
            run.log = take_log();
            run.points = points();
            return run;
        }
    };
    let mut model = DeModel {
        ords: 0,
        open: Vec::new(),
    };
    let mut cancelled = false;
    for (i, event) in events.iter().enumerate() {
        if cfg.cancel == Some(i) {
            count("fault.cancellation");
            tr(|| format!("FAULT abandoned before event {}", i));
            cancelled = true;
            break;
        }
        if cfg.relocate == Some(i) {
            count("fault.relocation");
            tr(|| "the driver is moved".to_string());
            let moved: Box<DeserializeDriver> = Box::new(*driver);
            driver = moved;
        }
        yield_point();
        let mut buf = Vec::new();
        let out = {
            let event = if cfg.lend {
                lend_event(event, &mut buf)
            } else {
                event.to_static()
            };
            // programs often emit their values as they are
            if (i + events.len()) % 2 == 1 {
                guarded(|| emit_native(&mut driver, event))
            } else {
                guarded(|| driver.emit(event))
            }
        };
        buf.iter_mut().for_each(|b| *b = b'#');
        drop(buf);
        tr(|| format!("emit #{} {:?} -> {}", i, event, out.describe()));
        let failed = !out.is_ok();
        if failed {
            // an end always closes the container, a start does not open it any more
            if matches!(event, Event::MapEnd | Event::SeqEnd) {
                model.open.pop();
            }
            if cfg.check_state && matches!(out, Outcome::Err(_)) {
                // the start of a container that failed changes nothing
                let at = match event {
                    Event::MapEnd | Event::SeqEnd => Some(i),
                    _ => i.checked_sub(1),
                };
                let face = at.and_then(|at| cfg.faces.get(at));
                check_driver_state(&driver, &model.open, cfg, "after a failed event", face);
            }
            if cfg.check_path && matches!(out, Outcome::Err(_)) {
                check_failed_path(&driver, events, i);
            }
            run.outcome = out;
            break;
        }
        model.feed(event);
        run.done = i + 1;
        if cfg.check_state {
            check_driver_state(&driver, &model.open, cfg, "between events", cfg.faces.get(i));
        }
        if violated() {
            break;
        }
    }
    run.complete = run.done == events.len() && !cancelled;
    run.allocs = alloc::count();
    alloc::reset_count();
    run.points = points();
    run.log = take_log();
    if cfg.after > 0 && !matches!(run.outcome, Outcome::Stop) && (!run.outcome.is_ok() || cancelled) {
        chaos(|| {
            // whoever continues in spite of a failure must not do harm
            for k in 0..cfg.after {
                let event = match draw(3) {
                    0 => link::random_event(names),
                    1 if run.done + 1 < events.len() => events[run.done + 1].to_static(),
                    1 => link::random_event(names),
                    _ => {
                        if model.open.last().map_or(false, |x| x.1) {
                            Event::MapEnd
                        } else {
                            Event::SeqEnd
                        }
                    }
                };
                count("fault.use_after_failure");
                let _ = guarded_v(|| driver.state().depth());
                let _ = guarded_v(|| {
                    driver
                        .state()
                        .top_descriptor()
                        .map(|d| d.name().map(|x| x.len()))
                });
                tr(|| format!("emit after failure #{} {:?}", k, event));
                let out = guarded(|| driver.emit(event));
                tr(|| format!("-> {}", out.describe()));
                if matches!(out, Outcome::Stop) {
                    break;
                }
            }
            drop_driver(driver);
        });
    } else {
        drop_driver(driver);
    }
    if cfg.fault == Fault::Drop {
        run.points = points();
    }
    run
}

/// The location of every event in the document (None: inside of a key).
pub fn event_locations(events: &[Event<'static>]) -> Vec<Option<Vec<crate::model::Seg>>> {
    use crate::model::{seg_of_key, Seg};
    enum Open {
        Seq(u64),
        Map(bool, Seg),
    }
    let mut open: Vec<(Open, Option<Vec<Seg>>)> = Vec::new();
    let mut rv = Vec::new();
    for event in events {
        match event {
            Event::MapEnd | Event::SeqEnd => {
                let (_, loc) = match open.pop() {
                    Some(x) => x,
                    None => break,
                };
                rv.push(loc);
                continue;
            }
            _ => {}
        }
        let loc = match open.last_mut() {
            None => Some(Vec::new()),
            Some((Open::Seq(n), base)) => {
                *n += 1;
                base.clone().map(|mut b| {
                    b.push(Seg::Index(*n - 1));
                    b
                })
            }
            Some((Open::Map(key @ true, seg), _)) => {
                *key = false;
                *seg = match event {
                    Event::Atom(a) => seg_of_key(a),
                    _ => Seg::Unknown,
                };
                None
            }
            Some((Open::Map(key, seg), base)) => {
                *key = true;
                base.clone().map(|mut b| {
                    b.push(seg.clone());
                    b
                })
            }
        };
        match event {
            Event::MapStart => open.push((Open::Map(true, Seg::Unknown), loc.clone())),
            Event::SeqStart => open.push((Open::Seq(0), loc.clone())),
            _ => {}
        }
        rv.push(loc);
    }
    rv
}

fn check_failed_path(driver: &DeserializeDriver, events: &[Event<'static>], at: usize) {
    use crate::model::Seg;
    let locs = event_locations(events);
    let loc = match locs.get(at) {
        Some(Some(loc)) => loc,
        _ => return,
    };
    let out = guarded_v(|| {
        let path = driver.state().get::<Path>();
        let _g = alloc::untracked();
        path.segments().to_vec()
    });
    if let Outcome::Ok(path) = out {
        // The failure can come from the container (when it was asked for another sink),
        // from the value itself, or from it right after it was entered.
        let fits = |loc: &[Seg]| {
            path.len() >= loc.len()
                && path.len() <= loc.len() + 1
                && path[..loc.len()].iter().zip(loc).all(|(p, l)| match (p, l) {
                    (PathSegment::Index(a), Seg::Index(b)) => *a as u64 == *b,
                    (PathSegment::Index(a), Seg::Lenient(b)) => *a as u64 == *b,
                    (PathSegment::Key(a), Seg::Key(b)) => a == b,
                    (PathSegment::Unknown, Seg::Unknown | Seg::Lenient(_)) => true,
                    _ => false,
                })
        };
        count("checks.path_after_failure");
        let container = &loc[..loc.len().saturating_sub(1)];
        if !fits(loc) && !fits(container) {
            violate(
                "wrong-path",
                format!(
                    "after the failure of event {} the path is {:?}, the location is {:?}",
                    at, path, loc
                ),
            );
        }
    }
}

// ---------------------------------------------------------------- serialization

pub fn run_ser(value: &dyn Serialize, cfg: &Cfg) -> Run {
    begin(cfg.fault, cfg.at);
    alloc::reset_count();
    if let Some(n) = cfg.alloc_at {
        alloc::fail_at(n);
    }
    let mut run = match cfg.layer {
        Layer::Bare => drive_ser(value, cfg),
        Layer::Inst => {
            let root = ISer::root(SerializeHandle::Borrowed(value), cfg.watch);
            let rv = drive_ser(&root, cfg);
            drop_checked("root", root);
            rv
        }
        Layer::Path => {
            let root = PathSerializable::wrap(value);
            let rv = drive_ser(&root, cfg);
            drop_checked("root", root);
            rv
        }
        Layer::PathInst => {
            let inner = ISer::root(SerializeHandle::Borrowed(value), cfg.watch);
            let rv = {
                let root = PathSerializable::wrap(&inner);
                let rv = drive_ser(&root, cfg);
                drop_checked("root", root);
                rv
            };
            drop_checked("root", inner);
            rv
        }
    };
    alloc::reset_count();
    if cfg.fault == Fault::Drop {
        run.points = points();
    }
    run
}

enum Got {
    End,
    Event(Event<'static>, Option<String>, usize, Option<Option<String>>),
}

fn next_event(driver: &mut SerializeDriver, cfg: &Cfg) -> Outcome<Got> {
    guarded(|| {
        let rv = driver.next()?;
        let _g = alloc::untracked();
        Ok(match rv {
            None => Got::End,
            Some((event, descriptor, state)) => {
                let mut depth = 0;
                let mut top = None;
                if cfg.log_state {
                    depth = state.depth();
                    top = state
                        .top_descriptor()
                        .map(|d| crate::probe::describe(d));
                }
                Got::Event(
                    event.to_static(),
                    crate::probe::describe(descriptor),
                    depth,
                    top,
                )
            }
        })
    })
}

fn drive_ser(value: &dyn Serialize, cfg: &Cfg) -> Run {
    let mut run = Run::new();
    let mut driver = match guarded_v(|| SerializeDriver::new(value)) {
        Outcome::Ok(driver) => Box::new(driver),
        other => {
            run.allocs = alloc::count();
            alloc::reset_count();
            run.outcome = unit(other);
            run.points = points();
            run.log = take_log();
            return run;
        }
    };
    let mut cancelled = false;
    loop {
        if cfg.cancel == Some(run.done) {
            count("fault.cancellation");
            tr(|| format!("FAULT abandoned before event {}", run.done));
            cancelled = true;
            break;
        }
        if cfg.relocate == Some(run.done) {
            count("fault.relocation");
            tr(|| "the driver is moved".to_string());
            let moved: Box<SerializeDriver> = Box::new(*driver);
            driver = moved;
        }
        yield_point();
        match next_event(&mut driver, cfg) {
            Outcome::Ok(Got::End) => {
                run.complete = true;
                break;
            }
            Outcome::Ok(Got::Event(event, name, depth, top)) => {
                run.done += 1;
                log_item(Item::Ev {
                    event: event.to_static(),
                    name,
                    depth,
                    top,
                });
                run.events.push(event);
                if run.done > 1_000_000 {
                    violate("unbounded", "more than 1000000 events");
                    break;
                }
            }
            other => {
                tr(|| format!("next -> {}", other.describe()));
                run.outcome = unit(other);
                break;
            }
        }
        if violated() {
            break;
        }
    }
    run.allocs = alloc::count();
    alloc::reset_count();
    run.points = points();
    run.log = take_log();
    if run.complete && cfg.after > 0 {
        // the end is the end
        for _ in 0..cfg.after {
            match next_event(&mut driver, cfg) {
                Outcome::Ok(Got::End) => {}
                Outcome::Ok(Got::Event(e, ..)) => {
                    violate("event-after-end", format!("{:?} after the end", e))
                }
                other => violate("event-after-end", format!("{} after the end", other.describe())),
            }
        }
        drop_driver(driver);
    } else if cfg.after > 0 && !cancelled && !matches!(run.outcome, Outcome::Stop) {
        chaos(|| {
            for _ in 0..cfg.after {
                count("fault.use_after_failure");
                let out = next_event(&mut driver, cfg);
                let _ = guarded_v(|| driver.state().depth());
                let _ = guarded_v(|| {
                    driver
                        .state()
                        .top_descriptor()
                        .map(|d| d.name().map(|x| x.len()))
                });
                if matches!(out, Outcome::Stop) {
                    break;
                }
            }
            drop_driver(driver);
        });
    } else {
        drop_driver(driver);
    }
    run
}

// ---------------------------------------------------------------- expected histories

/// The history of serializing a value.
pub fn expect_ser(root: &SNode, inst: bool, unique: bool, state: bool) -> Vec<Item> {
    let mut e = SerExp {
        out: Vec::new(),
        ords: 0,
        inst,
        unique,
        state,
        open: Vec::new(),
    };
    let ord = e.ord();
    e.value(root, ord);
    e.out
}

struct SerExp {
    out: Vec<Item>,
    ords: u32,
    inst: bool,
    unique: bool,
    state: bool,
    open: Vec<Option<String>>,
}

impl SerExp {
    fn ord(&mut self) -> u32 {
        self.ords += 1;
        self.ords - 1
    }

    fn s(&mut self, ord: u32, op: Op) {
        if self.inst {
            self.out.push(Item::Call(Who::S(ord), op));
        }
    }

    fn p(&mut self, probes: &[u32], op: Op) {
        for p in probes {
            self.out.push(Item::Call(Who::P(*p), op));
        }
    }

    fn ev(&mut self, event: Event<'static>, name: Option<String>) {
        let (depth, top) = if self.state {
            (self.open.len(), self.open.last().cloned())
        } else {
            (0, None)
        };
        self.out.push(Item::Ev {
            event,
            name,
            depth,
            top,
        });
    }

    fn name(&self, node: &SNode, ord: u32) -> Option<String> {
        let real = node.name.as_deref();
        if self.inst && self.unique {
            Some(format!("{}#{}{}", real.unwrap_or("-"), ord, node.traits))
        } else if node.traits.is_empty() {
            real.map(|x| x.to_string())
        } else {
            Some(format!("{}{}", real.unwrap_or("-"), node.traits))
        }
    }

    fn value(&mut self, node: &SNode, ord: u32) {
        let name = self.name(node, ord);
        self.s(ord, Op::Ser);
        self.p(&node.probes, Op::Ser);
        let end = match &node.body {
            SBody::Atom(a) => {
                self.ev(Event::Atom(a.to_static()), name);
                self.s(ord, Op::SerFin);
                self.p(&node.probes, Op::SerFin);
                return;
            }
            SBody::Seq(items) => {
                self.open.push(name.clone());
                self.ev(Event::SeqStart, name.clone());
                for item in items {
                    self.s(ord, Op::Next);
                    let o = self.ord();
                    self.value(item, o);
                }
                self.s(ord, Op::Next);
                Event::SeqEnd
            }
            SBody::Map(items) => {
                self.open.push(name.clone());
                self.ev(Event::MapStart, name.clone());
                for (k, v) in items {
                    self.s(ord, Op::NextKey);
                    let o = self.ord();
                    self.value(k, o);
                    self.s(ord, Op::NextVal);
                    let o = self.ord();
                    self.value(v, o);
                }
                self.s(ord, Op::NextKey);
                Event::MapEnd
            }
            SBody::Struct(fields) => {
                self.open.push(name.clone());
                self.ev(Event::MapStart, name.clone());
                self.s(ord, Op::Next);
                for f in fields {
                    match f {
                        SField::Enter(probes) => self.p(probes, Op::Ser),
                        SField::Leave(probes) => self.p(probes, Op::SerFin),
                        SField::Field(key, v) => {
                            let o = self.ord();
                            self.ev(
                                Event::Atom(Atom::Str(key.clone().into())),
                                Some("str".to_string()),
                            );
                            self.value(v, o);
                            self.s(ord, Op::Next);
                        }
                    }
                }
                Event::MapEnd
            }
        };
        self.open.pop();
        self.ev(end, name);
        self.s(ord, Op::SerFin);
        self.p(&node.probes, Op::SerFin);
    }
}

/// The callbacks caused by every event, in groups.
pub fn expect_de(events: &[Event<'static>]) -> Vec<Vec<Item>> {
    let mut m = DeModel {
        ords: 0,
        open: Vec::new(),
    };
    let mut rv = Vec::new();
    for event in events {
        let mut group = Vec::new();
        let call = |ord: u32, op: Op| Item::Call(Who::S(ord), op);
        match event {
            Event::MapEnd | Event::SeqEnd => {
                let (ord, ..) = m.open.last().copied().unwrap();
                group.push(call(ord, Op::DeFin));
            }
            _ => {
                if let Some(&(ord, is_map, key)) = m.open.last() {
                    group.push(call(
                        ord,
                        if is_map && key {
                            Op::DeNextKey
                        } else {
                            Op::DeNextVal
                        },
                    ));
                }
                let ord = m.ords;
                match event {
                    Event::Atom(_) => {
                        group.push(call(ord, Op::Atom));
                        group.push(call(ord, Op::DeFin));
                    }
                    Event::MapStart => group.push(call(ord, Op::Map)),
                    Event::SeqStart => group.push(call(ord, Op::Seq)),
                    _ => unreachable!(),
                }
            }
        }
        m.feed(event);
        rv.push(group);
    }
    rv
}

/// Reports the first difference of two histories.
pub fn check_history(class: &str, got: &[Item], exp: &[Item], complete: bool) {
    for (i, (g, e)) in got.iter().zip(exp).enumerate() {
        let same = match (g, e) {
            (
                Item::Ev {
                    event: Event::Atom(Atom::F64(a)),
                    name: n1,
                    depth: d1,
                    top: t1,
                },
                Item::Ev {
                    event: Event::Atom(Atom::F64(b)),
                    name: n2,
                    depth: d2,
                    top: t2,
                },
            ) => a.to_bits() == b.to_bits() && n1 == n2 && d1 == d2 && t1 == t2,
            (a, b) => a == b,
        };
        if !same {
            violate(
                class,
                format!("step {} is {:?}, expected {:?}", i, g, e),
            );
            return;
        }
    }
    if got.len() > exp.len() {
        violate(
            class,
            format!("step {} is {:?}, expected the end", exp.len(), got[exp.len()]),
        );
    } else if complete && got.len() < exp.len() {
        violate(
            class,
            format!("ends after {} steps, expected {:?}", got.len(), exp[got.len()]),
        );
    }
}

//! C16: memory follows what is open, not what went through.
use crate::alloc;
use crate::core::*;
use crate::deep;
use crate::drive::*;
use crate::json;
use crate::link;
use crate::model::{Node, Schema};
use crate::types::{self, Empty};
use deser::de::{Deserialize, DeserializeDriver, SinkHandle};
use deser::ser::{
    Chunk, MapEmitter, SeqEmitter, Serialize, SerializeDriver, SerializeHandle, SerializerState,
    StructEmitter,
};
use deser::{Descriptor, Error, ErrorKind, Event};
use deser_path::{PathSerializable, PathSink};
use std::borrow::Cow;
use std::cell::Cell;

// ---------------------------------------------------------------- a value, over and over

/// Where a repeated value fails, each time before it succeeds.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fails {
    Never,
    Emitter,
    Serialize,
    Finish,
}

struct Rep<'a> {
    value: &'a dyn Serialize,
    /// sequence, map, struct
    kind: u64,
    handle: u64,
    n: u64,
    fails: Fails,
}

struct RepEmitter<'a> {
    of: &'a Rep<'a>,
    index: u64,
    failed: bool,
}

/// Hands on to the value, but fails first.
struct Flaky<'a> {
    value: &'a dyn Serialize,
    fails: Fails,
    failed: Cell<bool>,
}

fn refusal() -> Error {
    Error::new(ErrorKind::Unexpected, "not now")
}

impl<'a> Serialize for Flaky<'a> {
    fn descriptor(&self) -> &dyn Descriptor {
        self.value.descriptor()
    }
    fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
        if self.fails == Fails::Serialize && !self.failed.replace(true) {
            count("fault.callback_error");
            return Err(refusal());
        }
        self.value.serialize(state)
    }
    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
        self.value.finish(state)?;
        if self.fails == Fails::Finish {
            count("fault.callback_error");
            return Err(refusal());
        }
        Ok(())
    }
    fn is_optional(&self) -> bool {
        self.value.is_optional()
    }
}

impl<'a> Serialize for Rep<'a> {
    fn serialize(&self, _: &SerializerState) -> Result<Chunk, Error> {
        let emitter = Box::new(RepEmitter {
            of: self,
            index: 0,
            failed: false,
        });
        Ok(match self.kind {
            0 => Chunk::Seq(emitter),
            1 => Chunk::Map(emitter),
            _ => Chunk::Struct(emitter),
        })
    }
}

impl<'a> RepEmitter<'a> {
    fn more(&mut self) -> Result<bool, Error> {
        if self.of.fails == Fails::Emitter {
            self.failed = !self.failed;
            if self.failed {
                count("fault.callback_error");
                return Err(refusal());
            }
        }
        self.index += 1;
        Ok(self.index <= self.of.n)
    }

    fn handle(&self) -> SerializeHandle<'a> {
        let value = self.of.value;
        let own = || Flaky {
            value,
            fails: self.of.fails,
            failed: Cell::new(false),
        };
        if matches!(self.of.fails, Fails::Serialize | Fails::Finish) {
            return SerializeHandle::boxed(own());
        }
        match (self.of.handle + self.index) % 4 {
            0 | 1 => SerializeHandle::Borrowed(value),
            2 => SerializeHandle::boxed(own()),
            _ => SerializeHandle::boxed(Box::new(own())),
        }
    }
}

impl<'a> SeqEmitter for RepEmitter<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(if self.more()? { Some(self.handle()) } else { None })
    }
}

impl<'a> MapEmitter for RepEmitter<'a> {
    fn next_key(&mut self, _: &SerializerState) -> Result<Option<SerializeHandle>, Error> {
        Ok(if self.more()? {
            Some(SerializeHandle::boxed("the same key".to_string()))
        } else {
            None
        })
    }
    fn next_value(&mut self, _: &SerializerState) -> Result<SerializeHandle, Error> {
        Ok(self.handle())
    }
}

impl<'a> StructEmitter for RepEmitter<'a> {
    fn next(&mut self, _: &SerializerState) -> Result<Option<(Cow<'_, str>, SerializeHandle)>, Error> {
        Ok(if self.more()? {
            let key = match self.index % 2 {
                0 => Cow::Borrowed("a key"),
                _ => Cow::Owned("the key".to_string()),
            };
            Some((key, self.handle()))
        } else {
            None
        })
    }
}

// ---------------------------------------------------------------- measuring

#[derive(Clone, Copy, Debug)]
struct Cost {
    /// more than at the start, at the worst moment
    peak: i64,
    /// everything that was asked for
    total: i64,
    /// left in the end
    left: i64,
    /// the length of what was made
    output: i64,
}

/// None if the session is none to be judged.
fn measured(f: impl FnOnce() -> Option<usize>) -> Option<Cost> {
    let before = alloc::mark();
    let output = f()?;
    let (peak, total, live) = alloc::since_mark();
    Some(Cost {
        peak: peak - before,
        total,
        left: live - before,
        output: output as i64,
    })
}

const SLACK: i64 = 256;

fn compare(what: &str, n: u64, mut f: impl FnMut(u64) -> Option<usize>) {
    begin(Fault::None, u64::MAX);
    w(|w| w.log_calls = false);
    let few = measured(|| f(n));
    if violated() {
        return;
    }
    let many = measured(|| f(4 * n));
    if violated() {
        return;
    }
    let (few, many) = match (few, many) {
        (Some(few), Some(many)) => (few, many),
        _ => {
            count("runs.not_judged");
            return;
        }
    };
    count("checks.memory");
    nontrivial();
    tr(|| format!("{}: {:?} for {}, {:?} for {}", what, few, n, many, 4 * n));
    stir(few.total as u64);
    // a string that grows is twice as large as it has to be, and moves
    let output = if many.output > 0 { 3 * many.output } else { 0 };
    if many.peak > few.peak + output + SLACK {
        violate(
            "memory-grows",
            format!(
                "{}: {} bytes at most for {} of them, but {} for {}",
                what,
                few.peak,
                n,
                many.peak,
                4 * n
            ),
        );
    } else if many.left > few.left + SLACK {
        violate(
            "memory-stays",
            format!(
                "{}: {} bytes are left after {} of them, but {} after {}",
                what,
                few.left,
                n,
                many.left,
                4 * n
            ),
        );
    } else if many.total > 6 * few.total + 8192 {
        violate(
            "work-grows",
            format!(
                "{}: {} bytes are asked for in total for {} of them, but {} for {}",
                what,
                few.total,
                n,
                many.total,
                4 * n
            ),
        );
    }
}

fn fine(out: &Outcome<()>, what: &str) -> Option<usize> {
    match out {
        Outcome::Ok(()) => Some(0),
        other => {
            violate("failed", format!("{}: {}", what, other.describe()));
            None
        }
    }
}

// ---------------------------------------------------------------- workloads

fn serialize(n: u64) {
    let case = Case::modest(|_, _| true, 4, true);
    let kind = draw(3);
    let handle = draw(4);
    let layer = draw(2);
    let fails = match draw(8) {
        5 => Fails::Emitter,
        6 => Fails::Serialize,
        7 => Fails::Finish,
        _ => Fails::Never,
    };
    // the path is only kept up to date without failures
    let layer = if fails == Fails::Never { layer } else { 0 };
    sample(|| format!("serialize {} times {} ({:?})", n, case.ops.name, fails));
    let value = case.value.ser();
    let what = format!("serialize {} again and again ({:?})", case.ops.name, fails);
    compare(&what, n, |n| {
        let rep = Rep {
            value,
            kind,
            handle,
            n,
            fails,
        };
        let out = guarded(|| {
            let wrapped;
            let root: &dyn Serialize = if layer == 1 {
                wrapped = PathSerializable::wrap(&rep);
                &wrapped
            } else {
                &rep
            };
            let mut driver = SerializeDriver::new(root);
            let mut errors = 0;
            loop {
                match driver.next() {
                    Ok(Some(_)) => {}
                    Ok(None) => return Ok(()),
                    Err(e) => {
                        errors += 1;
                        if fails == Fails::Never || errors > 2 * n + 10 {
                            return Err(e);
                        }
                    }
                }
            }
        });
        match out {
            // going on after a failure may be refused in any way
            Outcome::Err(_) | Outcome::Panic(_) if fails != Fails::Never => None,
            out => fine(&out, &what),
        }
    });
}

fn write_json(n: u64) {
    let case = Case::modest(|_, s| s.json_ok(), 4, false);
    let kind = draw(3);
    let handle = draw(4);
    let layer = draw(2);
    sample(|| format!("write {} times {}", n, case.ops.name));
    let value = case.value.ser();
    let what = format!("write {} again and again", case.ops.name);
    compare(&what, n, |n| {
        let rep = Rep {
            value,
            kind,
            handle,
            n,
            fails: Fails::Never,
        };
        let out = guarded(|| {
            if layer == 1 {
                deser_json::to_string(&PathSerializable::wrap(&rep))
            } else {
                deser_json::to_string(&rep)
            }
        });
        match out {
            Outcome::Ok(text) => {
                let _g = alloc::tracked();
                Some(text.len())
            }
            other => {
                violate("failed", format!("{}: {}", what, other.describe()));
                None
            }
        }
    });
}

/// Emits copies of the events, which do not count.
fn emit_all<'e>(
    driver: &mut DeserializeDriver,
    events: impl Iterator<Item = &'e Event<'static>>,
) -> Result<(), Error> {
    for event in events {
        let event = {
            let _g = alloc::untracked();
            event.to_static()
        };
        driver.emit(event)?;
    }
    Ok(())
}

fn with_driver(
    sink: SinkHandle,
    path: bool,
    f: impl FnOnce(&mut DeserializeDriver) -> Result<(), Error>,
) -> Result<(), Error> {
    let mut driver = if path {
        DeserializeDriver::from_sink(SinkHandle::boxed(PathSink::wrap_ref(sink)))
    } else {
        DeserializeDriver::from_sink(sink)
    };
    f(&mut driver)
}

/// Fields nobody knows, or items nobody wants.
fn ignored(n: u64) {
    let case = Case::modest(|_, _| true, 4, true);
    let unit = match draw(2) {
        0 => case.node.events(),
        _ => link::random_node(&case.names(), 3).events(),
    };
    let path = draw(2) == 1;
    let how = draw(4);
    sample(|| format!("ignore {} times {} events", n, unit.len()));
    let mut head: Vec<Event<'static>> = Vec::new();
    let mut item: Vec<Event<'static>> = Vec::new();
    let mut tail: Vec<Event<'static>> = Vec::new();
    match how {
        // one field
        0 => {
            head.extend([Event::MapStart, "unknown".to_string().into(), Event::SeqStart]);
            tail.extend([Event::SeqEnd, Event::MapEnd]);
        }
        // many fields
        1 => {
            head.push(Event::MapStart);
            item.push("unknown".to_string().into());
            tail.push(Event::MapEnd);
        }
        2 => {
            head.push(Event::SeqStart);
            tail.push(Event::SeqEnd);
        }
        _ => {
            head.push(Event::MapStart);
            item.extend(unit.iter().map(|e| e.to_static()));
            tail.push(Event::MapEnd);
        }
    }
    item.extend(unit.iter().map(|e| e.to_static()));
    let what = "ignore the same again and again";
    compare(what, n, |n| {
        let mut slot: Option<Empty> = None;
        let out = guarded(|| {
            let sink = if how < 2 {
                Empty::deserialize_into(&mut slot)
            } else {
                SinkHandle::null()
            };
            with_driver(sink, path, |driver| {
                emit_all(driver, head.iter())?;
                for _ in 0..n {
                    emit_all(driver, item.iter())?;
                }
                emit_all(driver, tail.iter())
            })
        });
        fine(&out, what)
    });
}

fn read_ignored(n: u64) {
    let case = Case::modest(|_, s| s.json_ok(), 4, false);
    let style = json::Style {
        spaces: draw(2) == 1,
        escapes: draw(2) == 1,
        numbers: draw(2) == 1,
    };
    let unit = json::write(&case.node, &style);
    let fields = draw(2) == 1;
    let cut = draw(4) == 3;
    sample(|| format!("read {} times {} bytes and ignore them", n, unit.len()));
    let what = "read the same again and again and ignore it";
    compare(what, n, |n| {
        let mut text = String::from(if fields { "{" } else { "{\"unknown\":[" });
        for i in 0..n {
            if i > 0 {
                text.push(',');
            }
            if fields {
                text.push_str("\"\\u0075nknown\":");
            }
            text.push_str(&unit);
        }
        if !cut {
            text.push_str(if fields { "}" } else { "]}" });
        }
        let out = guarded(|| deser_json::from_str::<Empty>(&text).map(|_| ()));
        match out {
            Outcome::Err(_) if cut => {
                count("fault.truncation");
                Some(0)
            }
            out => fine(&out, what),
        }
    });
}

fn is_set(schema: &Schema) -> bool {
    match schema {
        Schema::Set(..) => true,
        Schema::Wrap(s) | Schema::Probe(s) | Schema::Named(_, s) | Schema::Opt(s) => is_set(s),
        Schema::Lazy(f) => is_set(&f()),
        _ => false,
    }
}

fn is_map(schema: &Schema) -> bool {
    match schema {
        Schema::Struct(_) | Schema::Map(..) => true,
        Schema::Wrap(s) | Schema::Probe(s) | Schema::Named(_, s) | Schema::Opt(s) => is_map(s),
        Schema::Lazy(f) => is_map(&f()),
        _ => false,
    }
}

/// Entries or elements which replace each other.
fn repeated(n: u64, text: bool) {
    let wanted = |o: &crate::types::TypeOps, s: &Schema| {
        // fields of these stand for several others
        !types::is_lossy(o.name) && (!text || s.json_ok()) && (is_map(s) || is_set(s))
    };
    let case = Case::modest(wanted, 4, !text);
    let entry = match case.node {
        Node::Map(ref items) if !items.is_empty() => {
            Node::Map(vec![items[draw(items.len() as u64) as usize].clone()])
        }
        Node::Seq(ref items) if !items.is_empty() && is_set(&case.schema) => {
            Node::Seq(vec![items[draw(items.len() as u64) as usize].clone()])
        }
        _ => {
            stir(0);
            return;
        }
    };
    let all = case.node.events();
    let (tail, head) = all.split_last().unwrap();
    let item = entry.events();
    let item = &item[1..item.len() - 1];
    sample(|| format!("repeat {} events of {} {} times", item.len(), case.ops.name, n));
    let path = draw(2) == 1;
    let what = format!("{} with the same entry again and again", case.ops.name);
    count_n("fault.duplication", n);
    if text {
        let style = json::Style {
            spaces: draw(2) == 1,
            escapes: draw(2) == 1,
            numbers: draw(2) == 1,
        };
        let whole = json::write(&case.node, &style);
        let end = match whole.rfind(|c| c == '}' || c == ']') {
            Some(end) => end,
            None => return,
        };
        let entry = json::write(&entry, &style);
        let entry = entry.trim();
        let entry = &entry[1..entry.len() - 1];
        compare(&what, n, |n| {
            let mut text = whole[..end].to_string();
            for _ in 0..n {
                text.push(',');
                text.push_str(entry);
            }
            text.push_str(&whole[end..]);
            let out = guarded(|| (case.ops.from_json)(text.as_bytes()).map(|_| ()));
            fine(&out, &what)
        });
    } else {
        compare(&what, n, |n| {
            let mut slot = (case.ops.slot)();
            let out = guarded(|| {
                with_driver(slot.sink(), path, |driver| {
                    emit_all(driver, head.iter())?;
                    for _ in 0..n {
                        emit_all(driver, item.iter())?;
                    }
                    emit_all(driver, std::iter::once(tail))
                })
            });
            let _g = alloc::tracked();
            drop(slot);
            fine(&out, &what)
        });
    }
}

/// The same event is refused again and again.
fn refused(n: u64) {
    let case = Case::modest(|_, _| true, 4, true);
    let names = case.names();
    let events = case.node.events();
    // what a list makes of refused items is up to the list
    let at = match is_map(&case.schema) {
        true => draw(3).min(events.len() as u64 - 1) as usize,
        false => 0,
    };
    let event = link::random_event(&names);
    sample(|| format!("{}: {:?} at {} {} times", case.ops.name, event, at, n));
    let what = format!("{} refuses the same again and again", case.ops.name);
    compare(&what, n, |n| {
        let mut slot = (case.ops.slot)();
        let mut refusals = 0;
        let out = guarded(|| {
            // without a path, which is only kept up to date without failures
            with_driver(slot.sink(), false, |driver| {
                emit_all(driver, events[..at].iter())?;
                chaos(|| {
                    for _ in 0..n {
                        if emit_all(driver, std::iter::once(&event)).is_ok() {
                            return Ok(());
                        }
                        refusals += 1;
                    }
                    Ok(())
                })
            })
        });
        let _g = alloc::tracked();
        drop(slot);
        match out {
            // not well formed any more: anything goes, and an event which is taken is not refused
            Outcome::Panic(_) => None,
            _ if refusals < n => None,
            out => {
                count_n("fault.replacement", n);
                fine(&out, &what)
            }
        }
    });
}

/// What is asked for in total follows the depth.
fn nested() {
    let plan = deep::plan_for_cost();
    let depth = 40 + draw(200) as usize;
    sample(|| format!("{} levels of nested data", depth));
    begin(Fault::None, u64::MAX);
    w(|w| w.log_calls = false);
    let mut at = |depth: usize| {
        measured(|| {
            let out = deep::session_at(&plan, depth);
            out.is_ok().then(|| 0)
        })
    };
    let (few, many) = (at(depth), at(4 * depth));
    let (few, many) = match (few, many) {
        (Some(few), Some(many)) => (few, many),
        _ => {
            if !violated() {
                violate("failed", format!("{} at depth {}", deep::what_name(&plan), depth));
            }
            return;
        }
    };
    nontrivial();
    count("checks.memory");
    tr(|| format!("{}: {:?} at {}, {:?} at {}", deep::what_name(&plan), few, depth, many, 4 * depth));
    stir(few.total as u64);
    if many.total > 7 * few.total + 16384 || many.peak > 9 * few.peak + 16384 {
        violate(
            "work-grows",
            format!(
                "{}: {:?} at depth {}, but {:?} at depth {}",
                deep::what_name(&plan),
                few,
                depth,
                many,
                4 * depth
            ),
        );
    }
}

pub fn c16() {
    let n = 40 + draw(120);
    match draw(12) {
        0 | 1 | 2 => serialize(n),
        3 | 4 => ignored(n),
        5 => read_ignored(n),
        6 | 7 => repeated(n, false),
        8 => repeated(n, true),
        9 => refused(n),
        10 => write_json(n),
        _ => nested(),
    }
}

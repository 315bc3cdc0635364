//! C13: sessions do not see each other.
use crate::alloc;
use crate::core::*;
use crate::drive::*;
use crate::json;
use crate::link;
use crate::probe::{ISer, Watch};
use crate::sched;
use crate::types::{catalog, DynSlot};
use deser::de::DeserializeDriver;
use deser::ser::{SerializeDriver, SerializeHandle};
use deser::Event;
use deser_debug::ToDebug;
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    De,
    Ser,
    Read,
    Write,
    Format,
}

/// Everything that defines a session.
struct Spec {
    id: u32,
    kind: Kind,
    case: Arc<Case>,
    events: Vec<Event<'static>>,
    names: Vec<String>,
    text: Vec<u8>,
    cfg: Cfg,
}

/// A session which is executed step by step.
struct Stepper {
    spec: Arc<Spec>,
    digest: Vec<String>,
    pos: usize,
    done: bool,
    de: Option<Box<DeserializeDriver<'static>>>,
    ser: Option<Box<SerializeDriver<'static>>>,
    root: *mut ISer<'static>,
    path: *mut deser_path::PathSerializable<'static>,
    slot: *mut Box<dyn DynSlot>,
}

impl Stepper {
    fn new(spec: &Arc<Spec>) -> Stepper {
        Stepper {
            spec: spec.clone(),
            digest: Vec::new(),
            pos: 0,
            done: false,
            de: None,
            ser: None,
            root: std::ptr::null_mut(),
            path: std::ptr::null_mut(),
            slot: std::ptr::null_mut(),
        }
    }

    fn say(&mut self, s: String) {
        tr(|| s.clone());
        self.digest.push(s);
    }

    fn start(&mut self) {
        let spec = self.spec.clone();
        begin(spec.cfg.fault, spec.cfg.at);
        match spec.kind {
            Kind::De => {
                self.slot = Box::into_raw(Box::new((spec.case.ops.slot)()));
                let slot: &'static mut dyn DynSlot = unsafe { &mut **self.slot };
                match guarded_v(|| make_driver(slot, &spec.cfg)) {
                    Outcome::Ok(d) => self.de = Some(Box::new(d)),
                    other => {
                        self.say(other.describe());
                        self.done = true;
                    }
                }
            }
            Kind::Ser => {
                // the case outlives the session, which is kept by the specification
                let value: &'static dyn deser::ser::Serialize =
                    unsafe { std::mem::transmute(spec.case.value.ser()) };
                let inst = spec.cfg.layer.inst();
                let path = matches!(spec.cfg.layer, Layer::Path | Layer::PathInst);
                let mut value = value;
                if inst {
                    self.root = Box::into_raw(Box::new(ISer::root(
                        SerializeHandle::Borrowed(value),
                        spec.cfg.watch,
                    )));
                    value = unsafe { &*self.root };
                }
                if path {
                    self.path = Box::into_raw(Box::new(deser_path::PathSerializable::wrap(value)));
                    value = unsafe { &*self.path };
                }
                match guarded_v(|| SerializeDriver::new(value)) {
                    Outcome::Ok(d) => self.ser = Some(Box::new(d)),
                    other => {
                        self.say(other.describe());
                        self.done = true;
                    }
                }
            }
            _ => {}
        }
    }

    /// One step of the session.
    fn step(&mut self) {
        set_session(self.spec.id);
        if self.done {
            return;
        }
        if self.pos == 0 && self.de.is_none() && self.ser.is_none() {
            self.start();
            if self.done {
                self.end();
                return;
            }
        }
        let spec = self.spec.clone();
        let pos = self.pos;
        self.pos += 1;
        if spec.cfg.cancel == Some(pos) {
            count("fault.cancellation");
            self.say("abandoned".into());
            self.end();
            return;
        }
        match spec.kind {
            Kind::De => {
                if pos == spec.events.len() {
                    self.end();
                    return;
                }
                let driver = self.de.as_mut().unwrap();
                let event = spec.events[pos].to_static();
                let out = guarded(|| driver.emit(event));
                let depth = driver.state().depth();
                self.say(format!("{:?} -> {} depth {}", spec.events[pos], out.describe(), depth));
                if !out.is_ok() {
                    self.end();
                }
            }
            Kind::Ser => {
                let driver = self.ser.as_mut().unwrap();
                let out = guarded(|| {
                    Ok(driver.next()?.map(|(e, d, s)| {
                        let _g = alloc::untracked();
                        format!("{:?} {:?} depth {}", e, d.name(), s.depth())
                    }))
                });
                match out {
                    Outcome::Ok(Some(s)) => self.say(s),
                    Outcome::Ok(None) => {
                        self.say("end".into());
                        self.end();
                    }
                    other => {
                        self.say(other.describe());
                        self.end();
                    }
                }
            }
            Kind::Read => {
                let out = guarded(|| (spec.case.ops.from_json)(&spec.text));
                match out {
                    Outcome::Ok(v) => {
                        self.say(format!("{:?}", v.val().canon()));
                        drop_checked("value", v);
                    }
                    other => self.say(other.describe()),
                }
                self.end();
            }
            Kind::Write => {
                let out = guarded(|| deser_json::to_string(spec.case.value.ser()));
                match out {
                    Outcome::Ok(s) => self.say(s),
                    other => self.say(other.describe()),
                }
                self.end();
            }
            Kind::Format => {
                let out = guarded_v(|| ToDebug::new(spec.case.value.ser()).to_string());
                match out {
                    Outcome::Ok(s) => self.say(s),
                    // the message names the place in the source
                    Outcome::Panic(_) => self.say("panic".into()),
                    other => self.say(other.describe()),
                }
                self.end();
            }
        }
    }

    fn end(&mut self) {
        self.done = true;
        self.release();
        if !self.slot.is_null() {
            let slot = unsafe { Box::from_raw(self.slot) };
            self.slot = std::ptr::null_mut();
            let got = slot.peek().map(|v| v.canon());
            self.say(format!("{:?}", got));
            drop_checked("slot", slot);
        }
        self.say(format!("{} points", points()));
        // what happened, with the values numbered in the order of their appearance
        let mut seen: HashMap<u32, u32> = HashMap::new();
        for item in take_log() {
            let line = match item {
                Item::Call(Who::P(p), op) => {
                    let n = seen.len() as u32;
                    let n = *seen.entry(p).or_insert(n);
                    format!("{:?} of value {}", op, n)
                }
                other => format!("{:?}", other),
            };
            self.digest.push(line);
        }
    }

    fn release(&mut self) {
        if let Some(d) = self.de.take() {
            drop_checked("driver", d);
        }
        if let Some(d) = self.ser.take() {
            drop_checked("driver", d);
        }
        if !self.path.is_null() {
            drop_checked("root", unsafe { Box::from_raw(self.path) });
            self.path = std::ptr::null_mut();
        }
        if !self.root.is_null() {
            drop_checked("root", unsafe { Box::from_raw(self.root) });
            self.root = std::ptr::null_mut();
        }
    }

    fn run(&mut self) {
        while !self.done {
            sched::yield_point();
            self.step();
        }
    }
}

impl Drop for Stepper {
    fn drop(&mut self) {
        self.release();
        if !self.slot.is_null() {
            drop(unsafe { Box::from_raw(self.slot) });
        }
    }
}

// ---------------------------------------------------------------- re-entrancy

thread_local! {
    static REENTER: RefCell<Option<(u64, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
}

/// Called in every callback: perhaps another session is executed here.
pub fn reenter_point(n: u64) {
    let f = REENTER.with(|r| {
        let mut r = r.borrow_mut();
        match *r {
            Some((at, _)) if at <= n => r.take(),
            _ => None,
        }
    });
    if let Some((_, f)) = f {
        count("fault.reentrancy");
        let outer = session();
        tr(|| "another session is executed in this callback".into());
        f();
        set_session(outer);
    }
}

fn spec(id: u32, share: Option<Arc<Case>>) -> Spec {
    let case = share.unwrap_or_else(|| {
        // the order of a standard hash map depends on the number of maps of the thread
        Arc::new(Case::modest(
            |t, _| !(t.name.starts_with("HashMap") && !t.name.contains("SimState")) && !t.name.starts_with("HashSet"),
            4,
            true,
        ))
    });
    let _ = catalog;
    let names = case.names();
    let kind = match draw(8) {
        0 | 1 | 2 => Kind::De,
        3 | 4 => Kind::Ser,
        5 => Kind::Read,
        6 => Kind::Write,
        _ => Kind::Format,
    };
    let mut node = case.node.clone();
    if chance(1, 3) {
        link::mutate(&mut node, &names);
    }
    let mut text = Vec::new();
    if kind == Kind::Read {
        text = json::write(
            &json::project(&node),
            &json::Style {
                spaces: draw(2) == 1,
                escapes: draw(2) == 1,
                numbers: draw(2) == 1,
            },
        )
        .into_bytes();
        if chance(1, 4) {
            link::mutate_bytes(&mut text);
        }
    }
    let mut cfg = Cfg::new(if matches!(kind, Kind::De | Kind::Ser) {
        any_layer()
    } else {
        Layer::Bare
    });
    cfg.watch = Watch {
        state: true,
        path: cfg.layer == Layer::PathInst,
        unique_names: true,
        protocol: false,
    };
    cfg.direct = draw(2) == 1;
    Spec {
        id,
        kind,
        case,
        events: node.events(),
        names,
        text,
        cfg,
    }
}

pub fn c13() {
    let n = 2 + draw(3) as usize;
    let mut specs: Vec<Arc<Spec>> = Vec::new();
    for i in 0..n {
        let share = if i > 0 && chance(1, 3) {
            Some(specs[0].case.clone())
        } else {
            None
        };
        set_session(1 + i as u32);
        let mut s = spec(1 + i as u32, share);
        // some fail
        let fault = draw(6);
        if fault > 2 {
            let dry = Arc::new(s);
            let mut stepper = Stepper::new(&dry);
            stepper.run();
            let (steps, p) = (stepper.pos, points());
            drop(stepper);
            s = Arc::try_unwrap(dry).ok().unwrap();
            match fault {
                3 => s.cfg.cancel = Some(draw(steps as u64 + 1) as usize),
                4 => {
                    s.cfg.fault = Fault::Error;
                    s.cfg.at = draw(p.max(1));
                }
                _ => {
                    s.cfg.fault = Fault::Panic;
                    s.cfg.at = draw(p.max(1));
                }
            }
        }
        specs.push(Arc::new(s));
    }
    // every session on its own
    let mut alone = Vec::new();
    for s in &specs {
        set_session(s.id);
        tr(|| format!("session {} alone: {:?} of {} {}", s.id, s.kind, s.case.ops.name, s.cfg.describe()));
        let mut st = Stepper::new(s);
        st.run();
        alone.push(std::mem::take(&mut st.digest));
    }
    if violated() {
        return;
    }
    let mode = draw(3);
    stir(mode);
    nontrivial();
    sample(|| {
        format!(
            "{} {}",
            ["threads:", "multiplexed:", "nested:"][mode as usize],
            specs
                .iter()
                .map(|s| format!("{:?} {} {}", s.kind, s.case.ops.name, s.cfg.describe()))
                .collect::<Vec<_>>()
                .join(" | ")
        )
    });
    let results: Vec<Vec<String>> = match mode {
        0 => {
            count("mode.threads");
            let results = Arc::new(std::sync::Mutex::new(vec![Vec::new(); n]));
            let mut sessions: Vec<(u32, Box<dyn FnOnce() + Send>)> = Vec::new();
            for (i, s) in specs.iter().enumerate() {
                let (s, results) = (s.clone(), results.clone());
                sessions.push((
                    s.id,
                    Box::new(move || {
                        let mut st = Stepper::new(&s);
                        st.run();
                        results.lock().unwrap()[i] = std::mem::take(&mut st.digest);
                    }),
                ));
            }
            sched::run_sessions(sessions, 4 << 20);
            let rv = results.lock().unwrap().clone();
            rv
        }
        1 => {
            count("mode.multiplexed");
            let mut steppers: Vec<Stepper> = specs.iter().map(Stepper::new).collect();
            loop {
                let open: Vec<usize> = (0..n).filter(|&i| !steppers[i].done).collect();
                if open.is_empty() {
                    break;
                }
                let i = open[draw(open.len() as u64) as usize];
                stir(i as u64);
                // a burst of steps
                for _ in 0..1 + small(4) {
                    steppers[i].step();
                }
            }
            steppers
                .iter_mut()
                .map(|s| std::mem::take(&mut s.digest))
                .collect()
        }
        _ => {
            count("mode.nested");
            // all but the first are executed in callbacks of those before them
            let results = std::rc::Rc::new(RefCell::new(vec![Vec::new(); n]));
            fn nest(specs: &[Arc<Spec>], i: usize, results: &std::rc::Rc<RefCell<Vec<Vec<String>>>>) {
                let mut st = Stepper::new(&specs[i]);
                set_session(specs[i].id);
                if i + 1 < specs.len() {
                    let specs2 = specs.to_vec();
                    let results2 = results.clone();
                    let at = draw(24);
                    REENTER.with(|r| {
                        *r.borrow_mut() = Some((
                            at,
                            Box::new(move || {
                                let _g = alloc::untracked();
                                nest(&specs2, i + 1, &results2)
                            }),
                        ))
                    });
                }
                st.run();
                let digest = std::mem::take(&mut st.digest);
                drop(st);
                results.borrow_mut()[i] = digest;
                // if it had not enough callbacks
                let left = REENTER.with(|r| r.borrow_mut().take());
                if let Some((_, f)) = left {
                    f();
                }
                set_session(specs[i].id);
            }
            nest(&specs, 0, &results);
            let rv = results.borrow().clone();
            rv
        }
    };
    for (i, (got, exp)) in results.iter().zip(&alone).enumerate() {
        if got != exp {
            let at = got
                .iter()
                .zip(exp)
                .position(|(a, b)| a != b)
                .unwrap_or(got.len().min(exp.len()));
            violate(
                "not-isolated",
                format!(
                    "session {} ({:?} of {}) differs at step {}: {:?} among others, {:?} alone",
                    i + 1,
                    specs[i].kind,
                    specs[i].case.ops.name,
                    at,
                    got.get(at),
                    exp.get(at)
                ),
            );
        }
    }
    set_session(1);
    drop_checked("specs", specs);
}

//! The simulator core: the choice sequence, the fault plan, the object ledger, the
//! callback log and the violation record of the current run.
//!
//! Every decision of a run is a `draw`.  Draws come from one generator seeded by
//! (VERIF_SEED, property, run index), or from a recorded list when a run is replayed.
use crate::alloc;
use deser::{Error, ErrorKind, Event};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::Write;
use std::sync::{Mutex, MutexGuard};

// ---------------------------------------------------------------- choices

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub log: Vec<u64>,
    record: Option<std::fs::File>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes()
        .fold(0xcbf2_9ce4_8422_2325, |h, b| {
            (h ^ b as u64).wrapping_mul(0x100_0000_01b3)
        })
}

impl Src {
    pub fn seeded(seed: u64, prop: &str, run: u64) -> Src {
        Src {
            state: mix(mix(seed) ^ mix(hash_str(prop)) ^ mix(run).rotate_left(17)),
            replay: None,
            log: Vec::new(),
            record: None,
        }
    }

    pub fn replay(choices: Vec<u64>) -> Src {
        Src {
            state: 0,
            replay: Some(choices),
            log: Vec::new(),
            record: None,
        }
    }

    /// Additionally writes every choice to a file right away, so that the choices are
    /// known if the process dies.
    pub fn record_to(&mut self, path: &str) {
        self.record = Some(std::fs::File::create(path).unwrap());
    }

    fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match self.replay {
            Some(ref r) => r.get(self.log.len()).copied().unwrap_or(0) % n,
            None => {
                self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                ((mix(self.state) as u128 * n as u128) >> 64) as u64
            }
        };
        self.log.push(v);
        if let Some(ref mut f) = self.record {
            let _ = f.write_all(format!("{}\n", v).as_bytes());
        }
        v
    }
}

// ---------------------------------------------------------------- world

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    // serialization
    Ser,
    SerFin,
    Next,
    NextKey,
    NextVal,
    // deserialization
    Atom,
    Map,
    Seq,
    DeNextKey,
    DeNextVal,
    ForKey,
    DeFin,
    // user code which can't fail
    User,
}

/// Who was called.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Who {
    /// the nth instrumented object of the session
    S(u32),
    /// the nth probe value of the session
    P(u32),
    /// something that is not logged
    Hidden,
}

/// An entry in the history of a session.
#[derive(Clone, PartialEq, Debug)]
pub enum Item {
    Call(Who, Op),
    Ev {
        event: Event<'static>,
        name: Option<String>,
        depth: usize,
        top: Option<Option<String>>,
    },
}

pub struct Obj {
    pub kind: &'static str,
    pub who: Who,
    pub alive: bool,
    pub parent: u32,
    pub live_children: u32,
    pub session: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    Error,
    Panic,
    /// a destructor panics
    Drop,
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub fault: Fault,
    pub at: u64,
    pub fired: bool,
}

#[derive(Default)]
pub struct Session {
    pub log: Vec<Item>,
    pub points: u64,
    pub next_ord: u32,
    pub plan: Option<Plan>,
    pub ext: u64,
    pub many_ext: [u64; 20],
}

pub struct World {
    pub src: Src,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub violation: Option<(String, String)>,
    pub steps: u64,
    pub step_cap: u64,
    pub objs: Vec<Obj>,
    pub sessions: Vec<Session>,
    pub counters: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub log_calls: bool,
    pub check_ledger: bool,
    pub hash_seed: u64,
    pub last_panic: String,
    pub chaos: bool,
    pub sample: Vec<String>,
    /// the lowest stack address seen in a callback
    pub low_stack: usize,
    /// sinks which received something but were not finished
    pub unfinished: u64,
    /// An allocation failed.  As this normally ends the process nobody has to be prepared to
    /// free what it owns, all that counts is that no harm is done.
    pub alloc_failed: bool,
}

impl World {
    pub fn new(src: Src, tracing: bool) -> World {
        World {
            src,
            tracing,
            trace: Vec::new(),
            hash: 0x1234_5678,
            violation: None,
            steps: 0,
            step_cap: 10_000_000,
            objs: vec![Obj {
                kind: "none",
                who: Who::Hidden,
                alive: true,
                parent: 0,
                live_children: 0,
                session: 0,
            }],
            sessions: (0..8).map(|_| Session::default()).collect(),
            counters: BTreeMap::new(),
            nontrivial: false,
            log_calls: true,
            check_ledger: true,
            hash_seed: 0,
            last_panic: String::new(),
            chaos: false,
            sample: Vec::new(),
            low_stack: usize::MAX,
            unfinished: 0,
            alloc_failed: false,
        }
    }

    fn stir(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v);
    }

    pub fn violate(&mut self, class: &str, msg: String) {
        if self.tracing {
            self.trace.push(format!("!! {}: {}", class, msg));
        }
        if self.violation.is_none() {
            self.violation = Some((class.to_string(), msg));
        }
    }
}

static WORLD: Mutex<Option<Box<World>>> = Mutex::new(None);

thread_local! {
    static SESSION: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: Cell<bool> = const { Cell::new(false) };
}

fn lock() -> MutexGuard<'static, Option<Box<World>>> {
    WORLD.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn install(world: World) {
    *lock() = Some(Box::new(world));
}

pub fn uninstall() -> World {
    *lock().take().expect("no world")
}

/// Runs harness code with access to the world.  Must never call code under test.
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _g = alloc::untracked();
    f(lock().as_mut().expect("no world"))
}

pub fn session() -> u32 {
    SESSION.with(|s| s.get())
}

pub fn set_session(n: u32) {
    SESSION.with(|s| s.set(n));
}

// ---------------------------------------------------------------- draws

/// A number in 0..n.  Zero is the simplest choice.
pub fn draw(n: u64) -> u64 {
    w(|w| w.src.draw(n))
}

/// True with a probability of num/den.  False is the simpler choice.
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}

pub fn pick<T: Clone>(items: &[T]) -> T {
    items[draw(items.len() as u64) as usize].clone()
}

/// Small numbers are likely: geometric up to max.
pub fn small(max: u64) -> u64 {
    let mut n = 0;
    while n < max && chance(3, 5) {
        n += 1;
    }
    n
}

// ---------------------------------------------------------------- records

pub fn violate(class: &str, msg: impl Into<String>) {
    let msg = {
        let _g = alloc::untracked();
        msg.into()
    };
    w(|w| w.violate(class, msg));
}

pub fn violated() -> bool {
    w(|w| w.violation.is_some())
}

pub fn count(name: &'static str) {
    w(|w| *w.counters.entry(name).or_insert(0) += 1);
}

pub fn count_n(name: &'static str, n: u64) {
    w(|w| *w.counters.entry(name).or_insert(0) += n);
}

pub fn nontrivial() {
    w(|w| w.nontrivial = true);
}

/// Adds to the signature of the run.
pub fn stir(v: u64) {
    w(|w| w.stir(v));
}

pub fn stir_str(s: &str) {
    w(|w| w.stir(hash_str(s)));
}

/// Adds a line to the trace (if there is one); draws nothing.
pub fn tr(f: impl FnOnce() -> String) {
    let tracing = w(|w| w.tracing && w.trace.len() < 5000);
    if tracing {
        let _g = alloc::untracked();
        let line = f();
        w(|w| {
            let line = format!("[s{}] {}", session(), line);
            w.trace.push(line)
        });
    }
}

// ---------------------------------------------------------------- ledger

pub fn new_obj(kind: &'static str, parent: u32) -> u32 {
    w(|w| {
        let id = w.objs.len() as u32;
        w.objs.push(Obj {
            kind,
            alive: true,
            parent,
            live_children: 0,
            session: session(),
            who: Who::Hidden,
        });
        w.objs[parent as usize].live_children += 1;
        w.stir(id as u64 ^ 0xA0);
        id
    })
}

pub fn drop_obj(id: u32) {
    w(|w| {
        w.stir(id as u64 ^ 0xD0_0000);
        let sp = stack_pointer();
        w.low_stack = w.low_stack.min(sp);
        if !w.check_ledger {
            return;
        }
        if id == 0 || id as usize >= w.objs.len() {
            w.violate("bad-object", format!("drop of an object with id {}", id));
            return;
        }
        let o = &mut w.objs[id as usize];
        let kind = o.kind;
        if !o.alive {
            w.violate("double-drop", format!("{} #{} was dropped twice", kind, id));
            return;
        }
        o.alive = false;
        let parent = o.parent;
        let children = o.live_children;
        w.objs[parent as usize].live_children -= 1;
        if children > 0 {
            let child = w
                .objs
                .iter()
                .position(|c| c.alive && c.parent == id)
                .unwrap_or(0);
            let child_kind = w.objs[child].kind;
            w.violate(
                "parent-dropped-before-child",
                format!(
                    "{} #{} was dropped while {} #{} which borrows from it was alive",
                    kind, id, child_kind, child
                ),
            );
        }
    })
}

pub fn alive_objs(session: u32) -> Vec<(u32, &'static str)> {
    w(|w| {
        w.objs
            .iter()
            .enumerate()
            .skip(1)
            .filter(|(_, o)| o.alive && o.session == session)
            .map(|(i, o)| (i as u32, o.kind))
            .collect()
    })
}

// ---------------------------------------------------------------- callbacks and faults

/// The source attached to an injected error, used to recognise it.
#[derive(Debug)]
pub struct Injected(pub u64);

impl fmt::Display for Injected {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}

impl std::error::Error for Injected {}

/// The payload of an injected panic.
pub struct InjectedPanic(pub u64);

/// The payload used to abandon a run which does not come to an end.
pub struct StopRun;

fn injected_kind(n: u64) -> ErrorKind {
    match n % 6 {
        0 => ErrorKind::UnsupportedType,
        1 => ErrorKind::Unexpected,
        2 => ErrorKind::MissingField,
        3 => ErrorKind::OutOfRange,
        4 => ErrorKind::WrongLength,
        _ => ErrorKind::EndOfFile,
    }
}

fn injected_error(n: u64) -> Error {
    let _g = alloc::untracked();
    Error::new(injected_kind(n), format!("injected-{}", n)).with_source(Injected(n))
}

/// Returns the number of the injected fault if the error is exactly an injected one.
pub fn injected_in(err: &Error) -> Option<u64> {
    let n = std::error::Error::source(err)?
        .downcast_ref::<Injected>()?
        .0;
    let kind = injected_kind(n);
    if err.kind() == kind && err.to_string() == format!("{:?}: injected-{}", kind, n) {
        Some(n)
    } else {
        None
    }
}

enum Act {
    Go,
    Error(u64),
    Panic(u64),
    Stop,
}

fn point(w: &mut World, what: &str) -> Act {
    w.steps += 1;
    if w.steps > w.step_cap {
        if w.violation.is_none() {
            w.violate(
                "unbounded",
                format!("more than {} callbacks in one run", w.step_cap),
            );
        }
        return Act::Stop;
    }
    let s = session() as usize;
    if matches!(w.sessions[s].plan, Some(Plan { fault: Fault::Drop, .. })) != (what == DESTRUCTOR) {
        return Act::Go;
    }
    let n = w.sessions[s].points;
    w.sessions[s].points += 1;
    if let Some(ref mut plan) = w.sessions[s].plan {
        if plan.at == n && !plan.fired {
            plan.fired = true;
            let fault = plan.fault;
            if w.tracing && fault != Fault::None {
                w.trace
                    .push(format!("[s{}] FAULT {:?} at point {} ({})", s, fault, n, what));
            }
            match fault {
                Fault::None => {}
                Fault::Error => {
                    *w.counters.entry("fault.callback_error").or_insert(0) += 1;
                    return Act::Error(n);
                }
                Fault::Drop => {
                    *w.counters.entry("fault.destructor_panic").or_insert(0) += 1;
                    return Act::Panic(n);
                }
                Fault::Panic => {
                    *w.counters.entry("fault.callback_panic").or_insert(0) += 1;
                    return Act::Panic(n);
                }
            }
        }
    }
    Act::Go
}

fn act(a: Act) -> Result<(), Error> {
    match a {
        Act::Go => Ok(()),
        Act::Error(n) => Err(injected_error(n)),
        Act::Panic(n) => {
            let _g = alloc::untracked();
            std::panic::resume_unwind(Box::new(InjectedPanic(n)))
        }
        Act::Stop => {
            let _g = alloc::untracked();
            std::panic::resume_unwind(Box::new(StopRun))
        }
    }
}

/// Called at the beginning of every instrumented callback.
pub fn cb(id: u32, op: Op) -> Result<(), Error> {
    {
        let _g = alloc::untracked();
        crate::sched::yield_point();
        crate::multi::reenter_point(points());
    }
    let a = w(|w| {
        let s = session() as usize;
        w.stir(((id as u64) << 8) ^ op as u64 ^ ((s as u64) << 48));
        if !w.objs[id as usize].alive {
            let kind = w.objs[id as usize].kind;
            w.violate(
                "callback-on-dropped-object",
                format!("{:?} was invoked on {} #{} after it was dropped", op, kind, id),
            );
        }
        let who = w.objs[id as usize].who;
        if w.log_calls && who != Who::Hidden && w.sessions[s].log.len() < 1_000_000 {
            w.sessions[s].log.push(Item::Call(who, op));
        }
        let sp = stack_pointer();
        w.low_stack = w.low_stack.min(sp);
        if w.tracing && w.trace.len() < 5000 {
            let kind = w.objs[id as usize].kind;
            w.trace.push(format!("[s{}]   call {:?} on {} #{}", s, op, kind, id));
        }
        let what = if w.tracing { format!("before {:?} of #{}", op, id) } else { String::new() };
        point(w, &what)
    });
    act(a)
}

/// Called at the end of every instrumented callback which succeeded.
pub fn cb_post(id: u32, op: Op) -> Result<(), Error> {
    let a = w(|w| {
        let what = if w.tracing { format!("after {:?} of #{}", op, id) } else { String::new() };
        point(w, &what)
    });
    act(a)
}

/// User code which can't return errors but can panic (only counted if the plan is a panic).
pub fn cb_user(id: u32) {
    {
        let _g = alloc::untracked();
        crate::sched::yield_point();
    }
    let a = w(|w| {
        let s = session() as usize;
        match w.sessions[s].plan {
            Some(Plan {
                fault: Fault::Panic,
                ..
            }) => point(w, "user code"),
            _ => Act::Go,
        }
    });
    let _ = id;
    let _ = act(a);
}

const DESTRUCTOR: &str = "destructor";

/// Called at the end of every instrumented destructor.
pub fn cb_drop() {
    if std::thread::panicking() {
        return;
    }
    let a = w(|w| {
        let s = session() as usize;
        match w.sessions[s].plan {
            Some(Plan {
                fault: Fault::Drop, ..
            }) => point(w, DESTRUCTOR),
            _ => Act::Go,
        }
    });
    let _ = act(a);
}

/// From here on no destructor panics.
pub fn disarm_drops() {
    w(|w| {
        let s = session() as usize;
        if let Some(Plan {
            fault: Fault::Drop,
            ref mut at,
            ..
        }) = w.sessions[s].plan
        {
            *at = u64::MAX;
        }
    });
}

/// If a destructor has panicked on purpose.
pub fn drop_fired() -> bool {
    w(|w| {
        w.sessions[session() as usize]
            .plan
            .map_or(false, |p| p.fired && p.fault == Fault::Drop)
    })
}

/// Drops what is in the slot and tidies up in any case.
pub fn drop_inner<T>(slot: &mut Option<T>, tidy: impl FnOnce()) {
    let rv = {
        let _g = alloc::tracked();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| *slot = None))
    };
    let _g = alloc::untracked();
    tidy();
    match rv {
        Ok(()) => cb_drop(),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Adds something other than a call to the history.
pub fn log_item(item: Item) {
    w(|w| {
        let s = session() as usize;
        if w.tracing && w.trace.len() < 5000 {
            w.trace.push(format!("[s{}]   {:?}", s, item));
        }
        w.stir(hash_str(&format!("{:?}", item)));
        w.sessions[s].log.push(item);
    });
}

pub fn take_log() -> Vec<Item> {
    w(|w| {
        let s = session() as usize;
        std::mem::take(&mut w.sessions[s].log)
    })
}

/// Starts a new history with a fault plan in the current session.
pub fn begin(fault: Fault, at: u64) {
    w(|w| {
        let s = session() as usize;
        w.sessions[s] = Session {
            plan: Some(Plan {
                fault,
                at,
                fired: false,
            }),
            ..Session::default()
        };
    });
}

pub fn points() -> u64 {
    w(|w| w.sessions[session() as usize].points)
}

pub fn fired() -> bool {
    w(|w| w.sessions[session() as usize].plan.map_or(false, |p| p.fired))
}

pub fn next_ord() -> u32 {
    w(|w| {
        let s = session() as usize;
        w.sessions[s].next_ord += 1;
        w.sessions[s].next_ord - 1
    })
}

pub fn set_who(id: u32, who: Who) {
    w(|w| w.objs[id as usize].who = who);
}

pub fn is_chaos() -> bool {
    w(|w| w.chaos)
}

#[inline(always)]
pub fn stack_pointer() -> usize {
    let sp: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp) };
    sp
}

// ---------------------------------------------------------------- guarded execution

#[derive(Debug)]
pub enum Outcome<T> {
    Ok(T),
    Err(Error),
    Injected(u64),
    Alloc,
    Panic(String),
    Stop,
}

impl<T> Outcome<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }

    pub fn describe(&self) -> String {
        match self {
            Outcome::Ok(_) => "ok".into(),
            Outcome::Err(e) => format!("error: {}", e),
            Outcome::Injected(n) => format!("injected panic {}", n),
            Outcome::Alloc => "allocation failure".into(),
            Outcome::Panic(m) => format!("panic: {}", m),
            Outcome::Stop => "stopped".into(),
        }
    }
}

fn payload_outcome<T>(p: Box<dyn std::any::Any + Send>) -> Outcome<T> {
    if let Some(i) = p.downcast_ref::<InjectedPanic>() {
        Outcome::Injected(i.0)
    } else if p.is::<alloc::AllocFailure>() {
        count("fault.alloc_failure");
        w(|w| w.alloc_failed = true);
        Outcome::Alloc
    } else if p.is::<StopRun>() {
        Outcome::Stop
    } else {
        Outcome::Panic(w(|w| w.last_panic.clone()))
    }
}

/// Runs code under test (tracked), catching everything it can do.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Error>) -> Outcome<T> {
    let rv = {
        let _g = alloc::tracked();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
    };
    let _g = alloc::untracked();
    match rv {
        Ok(Ok(v)) => Outcome::Ok(v),
        Ok(Err(e)) => Outcome::Err(e),
        Err(p) => payload_outcome(p),
    }
}

/// As `guarded`, for code which can't return errors.
pub fn guarded_v<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    guarded(|| Ok(f()))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _g = alloc::untracked();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Some(w) = lock().as_mut() {
            w.last_panic = format!("{}{}", msg, loc);
        } else {
            eprintln!("harness panic: {}{}", msg, loc);
        }
    }));
}

// ---------------------------------------------------------------- entropy seam

static ENTROPY: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn set_entropy(v: u64) {
    ENTROPY.store(v, std::sync::atomic::Ordering::SeqCst);
    w(|w| w.hash_seed = v);
}

/// The seam for the keys of the standard library's hash maps: every thread of a run
/// receives the same, seeded bytes.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = ENTROPY.load(std::sync::atomic::Ordering::SeqCst);
    for i in 0..len {
        s = mix(s);
        unsafe { buf.add(i).write(s as u8) };
    }
    len as isize
}

/// A hasher whose order depends on the run only.
#[derive(Clone, Debug)]
pub struct SimState(u64);

impl Default for SimState {
    fn default() -> SimState {
        SimState(ENTROPY.load(std::sync::atomic::Ordering::SeqCst))
    }
}

pub struct SimHasher(u64);

impl std::hash::BuildHasher for SimState {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher(self.0)
    }
}

impl std::hash::Hasher for SimHasher {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.0 = mix(self.0 ^ b as u64);
        }
    }
}

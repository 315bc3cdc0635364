//! The workloads: one function per property runs one simulated execution and checks it.
use crate::alloc;
use crate::core::*;
use crate::drive::*;
use crate::json;
use crate::link;
use crate::model::{decode, same, Node, Schema, Val};
use crate::probe::Watch;
use crate::types::{self, DynSlot, Gen, TypeOps};
use deser::{Atom, ErrorKind, Event};

fn pct(n: u64) -> bool {
    chance(n, 100)
}

/// Reports an outcome which nothing that was injected explains.
fn unexpected_panic(out: &Outcome<()>) -> bool {
    if let Outcome::Panic(m) = out {
        violate("panic", format!("unexpected panic: {}", m));
        return true;
    }
    false
}

/// If there is a container with so many entries that a B-tree of it has more than one node. The
/// standard library aborts the process if the allocation of a further one unwinds.
fn has_wide(events: &[Event<'static>]) -> bool {
    let mut open = Vec::new();
    for e in events {
        if !matches!(e, Event::MapEnd | Event::SeqEnd) {
            if let Some((n, step)) = open.last_mut() {
                *n += *step;
                if *n > 22 {
                    return true;
                }
            }
        }
        match e {
            Event::MapStart => open.push((0, 1)),
            Event::SeqStart => open.push((0, 2)),
            Event::MapEnd | Event::SeqEnd => drop(open.pop()),
            _ => {}
        }
    }
    false
}

/// Picks a fault and its position after measuring a fault free execution.
fn pick_fault(
    cfg: &mut Cfg,
    events: usize,
    wide: bool,
    drops: bool,
    dry: impl FnOnce(&Cfg) -> Run,
) -> &'static str {
    let kind = draw(8);
    match kind {
        0 => "none",
        // a destructor which panics may leak, but it must not harm
        5 if drops && !wide && draw(2) == 1 => {
            cfg.fault = Fault::Drop;
            cfg.at = u64::MAX;
            let run = dry(cfg);
            cfg.at = draw(run.points.max(1));
            "destructor"
        }
        1 => {
            cfg.cancel = Some(draw(events as u64 + 1) as usize);
            "cancel"
        }
        2 | 3 | 4 | 5 => {
            cfg.fault = if kind < 4 { Fault::Error } else { Fault::Panic };
            cfg.at = u64::MAX;
            let run = dry(cfg);
            cfg.at = draw(run.points.max(1));
            if kind < 4 {
                "error"
            } else {
                "panic"
            }
        }
        _ if wide => "none",
        _ => {
            let run = dry(cfg);
            cfg.alloc_at = Some(draw(run.allocs.max(1)));
            "alloc"
        }
    }
}

/// Nothing of a session is left.
fn check_leftovers(sessions: &[u32]) {
    if w(|w| w.alloc_failed) {
        return;
    }
    for s in sessions {
        let left = alive_objs(*s);
        if !left.is_empty() {
            violate(
                "leak",
                format!(
                    "{} objects were never dropped, the first is {} #{}",
                    left.len(),
                    left[0].1,
                    left[0].0
                ),
            );
        }
    }
}

// ---------------------------------------------------------------- C01, C02: deserialization

struct DePlan {
    case: Case,
    events: Vec<Event<'static>>,
    names: Vec<String>,
    balanced: bool,
}

fn de_plan(damage: bool, max: u64) -> DePlan {
    let mut case = Case::new(any_type, max, true);
    let names = case.names();
    let mut node = case.node.clone();
    let mut balanced = true;
    let mut events;
    if damage {
        for _ in 0..small(3) {
            link::mutate(&mut node, &names);
        }
        events = node.events();
        if pct(20) {
            balanced = false;
            for _ in 0..1 + small(3) {
                link::mutate_events(&mut events, &names);
            }
        }
    } else {
        events = node.events();
    }
    case.node = node;
    DePlan {
        case,
        events,
        names,
        balanced,
    }
}

/// A slot to deserialize into, which can have a value from earlier.
fn any_slot(case: &Case, filled: bool) -> Box<dyn DynSlot> {
    let mut slot = (case.ops.slot)();
    if filled {
        slot.fill(&mut Gen::live(2));
    }
    slot
}

fn de_faulty(conservation: bool) {
    let filled = pct(15);
    let plan = de_plan(true, 3);
    let layer = any_layer();
    let mut cfg = Cfg::new(layer);
    cfg.watch = Watch::default();
    cfg.lend = draw(2) == 1;
    cfg.direct = draw(2) == 1;
    if pct(30) {
        cfg.relocate = Some(draw(plan.events.len() as u64 + 1) as usize);
    }
    w(|w| w.chaos = !plan.balanced);
    let kind = pick_fault(&mut cfg, plan.events.len(), has_wide(&plan.events), !conservation, |cfg| {
        let mut slot = any_slot(&plan.case, filled);
        let run = run_de(&mut *slot, &plan.events, &plan.names, cfg);
        drop_checked("slot", slot);
        run
    });
    if pct(40) {
        cfg.after = 1 + draw(6);
    }
    w(|w| w.chaos = !plan.balanced);
    tr(|| format!("deserialize {} events, {}", plan.events.len(), cfg.describe()));
    let mut slot = any_slot(&plan.case, filled);
    let run = run_de(&mut *slot, &plan.events, &plan.names, &cfg);
    disarm_drops();
    w(|w| w.chaos = false);
    tr(|| format!("outcome {}", run.outcome.describe()));
    if fired() || alloc_or_cancel(&cfg, &run) || !run.outcome.is_ok() {
        nontrivial();
    }
    sample(|| {
        format!(
            "{} {} events {} -> {}",
            plan.case.ops.name,
            plan.events.len(),
            cfg.describe(),
            run.outcome.describe()
        )
    });
    stir_str(kind);
    if plan.balanced && matches!(run.outcome, Outcome::Panic(_)) {
        unexpected_panic(&run.outcome);
    }
    let complete = run.complete && plan.balanced && cfg.after == 0;
    drop(run);
    // what was delivered is alive, nothing else is
    let value = match guarded_v(|| slot.take()) {
        Outcome::Ok(v) => v,
        other => {
            violate("panic", format!("taking the value: {}", other.describe()));
            None
        }
    };
    if let Some(ref v) = value {
        // reads all of the memory
        let val = v.val();
        if conservation {
            let mut probes = Vec::new();
            val.probes(&mut probes);
            let mut alive: Vec<u32> = alive_objs(session())
                .into_iter()
                .filter(|x| x.1 == "value")
                .map(|x| x.0)
                .collect();
            let mut own = Vec::new();
            plan.case.val.probes(&mut own);
            alive.retain(|x| !own.contains(x));
            probes.sort_unstable();
            alive.sort_unstable();
            if probes != alive {
                violate(
                    "not-conserved",
                    format!(
                        "the result holds the values {:?}, but {:?} are alive",
                        probes, alive
                    ),
                );
            }
        }
    } else if complete && conservation {
        violate("lost-value", "everything was delivered but there is no value");
    }
    drop_checked("value", value);
    drop_checked("slot", slot);
    drop_checked("case", plan);
    if conservation {
        check_leftovers(&[session()]);
    }
}

fn alloc_or_cancel(cfg: &Cfg, run: &Run) -> bool {
    cfg.cancel.map_or(false, |n| n >= run.done) || matches!(run.outcome, Outcome::Alloc)
}

pub fn c01() {
    de_faulty(false)
}

pub fn c02() {
    de_faulty(true)
}

// ---------------------------------------------------------------- C03: serialization

pub fn c03() {
    let mut case = Case::new(any_type, 3, true);
    let mut cfg = Cfg::new(any_layer());
    let n = case.node.size();
    if pct(30) {
        cfg.relocate = Some(draw(n as u64 + 1) as usize);
    }
    let how = if pct(25) { draw(5) } else { 0 };
    let run_it = |case: &mut Case, cfg: &Cfg| {
        let mut rv = None;
        case.value.with_ref(how, &mut |v| rv = Some(run_ser(v, cfg)));
        rv.unwrap()
    };
    let kind = pick_fault(&mut cfg, n, false, true, |cfg| run_it(&mut case, cfg));
    if pct(40) {
        cfg.after = 1 + draw(5);
    }
    tr(|| format!("serialize, {}", cfg.describe()));
    let run = run_it(&mut case, &cfg);
    let leaky = drop_fired();
    disarm_drops();
    tr(|| format!("outcome {}", run.outcome.describe()));
    stir_str(kind);
    unexpected_panic(&run.outcome);
    if fired() || alloc_or_cancel(&cfg, &run) {
        nontrivial();
    }
    sample(|| {
        format!(
            "{} {} -> {}",
            case.ops.name,
            cfg.describe(),
            run.outcome.describe()
        )
    });
    drop(run);
    // the value is untouched, nothing but the value is left
    let mut own = Vec::new();
    case.val.probes(&mut own);
    own.sort_unstable();
    let alive: Vec<u32> = alive_objs(session())
        .into_iter()
        .map(|x| x.0)
        .filter(|x| !leaky || own.contains(x))
        .collect();
    if own != alive {
        violate(
            "not-conserved",
            format!("the value consists of {:?} but {:?} are alive", own, alive),
        );
    }
    let again = case.value.val();
    if !same(&again.canon(), &case.val.canon(), false) {
        violate("value-changed", "serializing changed the value");
    }
    drop_checked("case", case);
    if !leaky {
        check_leftovers(&[session()]);
    }
}

// ---------------------------------------------------------------- C04: the event stream

/// What a value says about itself is the same behind all references and wrappers.
fn check_face(case: &mut Case, how: u64) {
    let optional = crate::model::is_optional(&case.schema, &case.val);
    let desc = case.snode.desc();
    let name = case.ops.name;
    case.value.with_ref(how, &mut |v| {
        let mut look = |what: &str, v: &dyn deser::Serialize| {
            count("checks.face");
            let got = guarded_v(|| (v.is_optional(), crate::probe::describe(v.descriptor())));
            let got = match got {
                Outcome::Ok(got) => got,
                other => {
                    violate("panic", format!("{} {}: {}", name, what, unit_ref(&other)));
                    return;
                }
            };
            if got != (optional, desc.clone()) {
                violate(
                    "wrong-face",
                    format!(
                        "{} {}: optional and descriptor are {:?}, expected {:?}",
                        name,
                        what,
                        got,
                        (optional, &desc)
                    ),
                );
            }
        };
        look("itself", v);
        let handle = deser::ser::SerializeHandle::Borrowed(v);
        look("in a handle", &*handle);
        look("with path", &deser_path::PathSerializable::wrap(v));
        look(
            "with path twice",
            &deser_path::PathSerializable::wrap_ref(deser::ser::SerializeHandle::boxed(
                deser_path::PathSerializable::wrap_ref(handle),
            )),
        );
    });
}

pub fn c04() {
    let mut case = Case::new(any_type, 4, true);
    let mut cfg = Cfg::new(any_layer());
    let how = if pct(25) { draw(5) } else { 0 };
    cfg.after = small(2);
    if pct(20) {
        cfg.relocate = Some(draw(case.node.size() as u64 + 1) as usize);
    }
    let exp = expect_ser(&case.snode, cfg.layer.inst(), false, false);
    let run_it = |case: &mut Case, cfg: &Cfg| {
        let mut rv = None;
        case.value.with_ref(how, &mut |v| rv = Some(run_ser(v, cfg)));
        rv.unwrap()
    };
    check_face(&mut case, how);
    let run = run_it(&mut case, &cfg);
    unexpected_panic(&run.outcome);
    if !run.complete {
        violate(
            "failed",
            format!("serialization failed without a fault: {}", run.outcome.describe()),
        );
    }
    check_history("wrong-history", &run.log, &exp, true);
    if run.events.len() > 1 {
        nontrivial();
    }
    count_n("events", run.events.len() as u64);
    if pct(60) && run.points > 0 {
        cfg.fault = Fault::Error;
        cfg.at = draw(run.points);
        cfg.after = 0;
        tr(|| format!("again with {}", cfg.describe()));
        let faulty = run_it(&mut case, &cfg);
        check_history("wrong-history-after-fault", &faulty.log, &exp, false);
        match faulty.injected() {
            Some(n) if n == cfg.at => {}
            _ => violate(
                "fault-not-reported",
                format!(
                    "a callback failed but the driver reports {}",
                    faulty.outcome.describe()
                ),
            ),
        }
        // a callback happens at the earliest moment: everything before it was seen
        if faulty.log.is_empty() {
            violate("wrong-history-after-fault", "nothing happened at all");
        }
        nontrivial();
    }
    sample(|| {
        format!(
            "{} {} {} events, {} steps",
            case.ops.name,
            cfg.describe(),
            run.events.len(),
            run.log.len()
        )
    });
}

// ---------------------------------------------------------------- C05: the callbacks of sinks

pub fn c05() {
    let mut case = Case::new(any_type, 4, true);
    let names = case.names();
    for _ in 0..small(2) {
        link::mutate(&mut case.node, &names);
    }
    let node = case.node.clone();
    let events = node.events();
    let exp = expect_de(&events);
    let expected = decode(&case.schema, &node, &mut 0);
    let mut cfg = Cfg::new(if draw(4) == 0 {
        Layer::PathInst
    } else {
        Layer::Inst
    });
    cfg.watch.protocol = true;
    cfg.lend = draw(2) == 1;
    if pct(20) {
        cfg.relocate = Some(draw(events.len() as u64 + 1) as usize);
    }
    let fault = pct(50);
    if fault {
        let mut slot = (case.ops.slot)();
        let dry = run_de(&mut *slot, &events, &names, &cfg);
        cfg.fault = Fault::Error;
        cfg.at = draw(dry.points.max(1));
    }
    w(|w| w.unfinished = 0);
    let mut slot = (case.ops.slot)();
    tr(|| format!("deserialize {} events, {}", events.len(), cfg.describe()));
    let run = run_de(&mut *slot, &events, &names, &cfg);
    unexpected_panic(&run.outcome);
    let flat = |n: usize| -> Vec<Item> { exp[..n].iter().flatten().cloned().collect() };
    let was_injected = fired() && cfg.fault == Fault::Error;
    if was_injected || !run.outcome.is_ok() {
        // all of the events before, and the beginning of the failed one
        let full = flat((run.done + 1).min(exp.len()));
        let before = flat(run.done);
        check_history("wrong-callbacks", &run.log, &full, false);
        if run.log.len() < before.len() {
            violate(
                "wrong-callbacks",
                format!("{:?} is missing", before[run.log.len()]),
            );
        }
    } else {
        check_history("wrong-callbacks", &run.log, &flat(run.done), true);
    }
    if was_injected {
        nontrivial();
        if run.injected() != Some(cfg.at) {
            violate(
                "fault-not-reported",
                format!("a sink failed but the driver reports {}", run.outcome.describe()),
            );
        }
    } else {
        check_outcome(&run, &expected, &events);
        if run.complete && w(|w| w.unfinished) > 0 {
            violate("not-finished", "a sink received a value but was not finished");
        }
    }
    sample(|| {
        format!(
            "{} {} {} events -> {}",
            case.ops.name,
            cfg.describe(),
            events.len(),
            run.outcome.describe()
        )
    });
    if events.len() > 1 {
        nontrivial();
    }
    // the same failure through the JSON reader
    if fault && json::representable(&node) && pct(40) {
        let text = json::write(
            &node,
            &json::Style {
                spaces: false,
                escapes: false,
                numbers: false,
            },
        );
        begin(Fault::Error, u64::MAX);
        let dry = guarded(|| (case.ops.from_json)(text.as_bytes()));
        drop(dry);
        let n = points();
        if n > 0 {
            let at = draw(n);
            begin(Fault::Error, at);
            tr(|| format!("the same as JSON, Error@{}", at));
            let out = guarded(|| (case.ops.from_json)(text.as_bytes()));
            match out {
                Outcome::Err(ref e) if injected_in(e) == Some(at) => {}
                other => violate(
                    "fault-not-reported",
                    format!("a sink failed but the JSON reader reports {}", other.describe()),
                ),
            }
        }
    }
}

/// Compares what happened with what the model says.
fn check_outcome(
    run: &Run,
    expected: &Result<Val, (usize, ErrorKind)>,
    events: &[Event<'static>],
) {
    match (&run.outcome, expected) {
        (Outcome::Ok(()), Ok(_)) => {}
        (Outcome::Err(e), Err((at, kind))) => {
            if run.done != *at {
                violate(
                    "wrong-error",
                    format!(
                        "the failure ({}) came at event {} ({:?}), expected {:?} at event {} ({:?})",
                        e,
                        run.done,
                        events.get(run.done),
                        kind,
                        at,
                        events.get(*at)
                    ),
                );
            } else if e.kind() != *kind {
                violate(
                    "wrong-error",
                    format!("the error is {}, expected {:?}", e, kind),
                );
            }
        }
        (Outcome::Err(e), Ok(v)) => violate(
            "refused",
            format!("refused with {} at event {}, expected {:?}", e, run.done, v),
        ),
        (Outcome::Ok(()), Err((at, kind))) => violate(
            "accepted",
            format!(
                "accepted, but event {} ({:?}) has to be refused with {:?}",
                at,
                events.get(*at),
                kind
            ),
        ),
        (out, _) => violate("panic", out.describe()),
    }
}

// ---------------------------------------------------------------- C06: all or nothing

pub fn c06() {
    let filled = pct(15);
    let plan = de_plan(true, 4);
    let mut cfg = Cfg::new(any_layer());
    cfg.lend = draw(2) == 1;
    cfg.direct = draw(2) == 1;
    w(|w| w.chaos = !plan.balanced);
    let kind = pick_fault(&mut cfg, plan.events.len(), has_wide(&plan.events), false, |cfg| {
        let mut slot = any_slot(&plan.case, filled);
        run_de(&mut *slot, &plan.events, &plan.names, cfg)
    });
    w(|w| w.chaos = !plan.balanced);
    let mut slot = any_slot(&plan.case, filled);
    let before = slot.peek();
    if filled {
        count("slots.filled");
    }
    tr(|| format!("deserialize {} events, {}", plan.events.len(), cfg.describe()));
    let run = run_de(&mut *slot, &plan.events, &plan.names, &cfg);
    w(|w| w.chaos = false);
    stir_str(kind);
    let got = slot.peek();
    let expected = decode(&plan.case.schema, &plan.case.node, &mut 0);
    sample(|| {
        format!(
            "{} {} -> {} after {} of {} events, value: {}",
            plan.case.ops.name,
            cfg.describe(),
            run.outcome.describe(),
            run.done,
            plan.events.len(),
            got.is_some()
        )
    });
    if plan.balanced {
        if run.complete && run.outcome.is_ok() {
            match (got, expected) {
                (None, _) => violate("lost-value", "everything was delivered but there is no value"),
                (Some(_), Err(_)) => violate("accepted", "the document is invalid for the type"),
                (Some(v), Ok(e)) => {
                    if !same(&v.canon(), &e.canon(), false) {
                        violate(
                            "wrong-value",
                            format!("got {:?}, expected {:?}", v.canon(), e.canon()),
                        );
                    }
                }
            }
        } else {
            nontrivial();
            check_untouched(&plan.case, before, got, &run, &plan.events);
        }
    } else if !run.outcome.is_ok() {
        nontrivial();
        // the value can have been complete before something else went wrong
        let mut depth = 0i64;
        let mut complete = false;
        // the event which failed can have completed it as well
        for e in &plan.events[..(run.done + 1).min(plan.events.len())] {
            match e {
                Event::MapStart | Event::SeqStart => depth += 1,
                Event::MapEnd | Event::SeqEnd => depth -= 1,
                _ => {}
            }
            if depth <= 0 {
                complete = true;
            }
        }
        if !complete {
            check_untouched(&plan.case, before, got, &run, &plan.events);
        }
    }
    // the JSON reader
    if pct(30) && json::representable(&plan.case.node) {
        let text = json::write(
            &plan.case.node,
            &json::Style {
                spaces: false,
                escapes: false,
                numbers: false,
            },
        );
        let cut = draw(text.len() as u64 + 1) as usize;
        begin(Fault::None, u64::MAX);
        let out = guarded(|| (plan.case.ops.from_json)(&text.as_bytes()[..cut]));
        count("fault.truncation");
        let (doc, borderline) = json::parse(&text.as_bytes()[..cut]);
        let ok = doc.ok().map_or(false, |n| decode(&plan.case.schema, &n, &mut 0).is_ok());
        if out.is_ok() != ok && !borderline {
            violate(
                "truncated-accepted",
                format!("{:?} -> {}", &text[..text.floor_char_boundary(cut)], out.describe()),
            );
        }
    }
}

fn check_untouched(case: &Case, before: Option<Val>, got: Option<Val>, run: &Run, events: &[Event<'static>]) {
    fn initial(schema: &Schema, v: &Val) -> bool {
        match (schema, v) {
            // an optional starts out as none
            (Schema::Opt(_), Val::None) => true,
            (Schema::Opt(s), Val::Some(v)) if matches!(**s, Schema::Opt(_)) => initial(s, v),
            (Schema::Wrap(s), v) | (Schema::Named(_, s), v) => initial(s, v),
            (Schema::Lazy(f), v) => initial(&f(), v),
            _ => false,
        }
    }
    if let Some(v) = got {
        if initial(&case.schema, &v) {
            return;
        }
        // what was there before can stay
        if before.map_or(false, |b| same(&b.canon(), &v.canon(), false)) {
            return;
        }
        // A failure after the value was placed can only come from the last event.
        let at_last = run.done + 1 >= events.len();
        let last_callback = at_last && fired() && !matches!(run.outcome, Outcome::Ok(()));
        if !last_callback {
            violate(
                "partial-value",
                format!(
                    "{} of {} events were delivered ({}) but there is a value: {:?}",
                    run.done,
                    events.len(),
                    run.outcome.describe(),
                    v.canon()
                ),
            );
        }
    }
}

// ---------------------------------------------------------------- C07: damaged JSON

fn number_soup() -> Vec<u8> {
    let mut s = String::new();
    if draw(3) == 0 {
        s.push('-');
    }
    let digits = |n: u64, s: &mut String| {
        for _ in 0..n {
            s.push((b'0' + draw(10) as u8) as char);
        }
    };
    if draw(8) == 7 {
        // a number of usual size with a lot of zeros the exponent takes away again
        let zeros = match draw(3) {
            0 => draw(30),
            1 => draw(300),
            _ => 290 + draw(500),
        };
        let first = 1 + draw(9);
        let exp = zeros as i64 + small(2) as i64 - small(2) as i64;
        let zeros = "0".repeat(zeros as usize);
        if draw(2) == 0 {
            s.push_str(&format!("{}{}", first, zeros));
            if draw(3) == 0 {
                s.push('.');
                digits(1 + draw(3), &mut s);
            }
            s.push_str(&format!("e{}", -exp));
        } else {
            s.push_str(&format!("0.{}{}e{}", zeros, first, exp));
        }
        return s.into_bytes();
    }
    if draw(8) == 7 {
        // between the limits of the integers with and without a sign
        s.clear();
        s.push_str(pick(&["", "-", "-", "-"]));
        let from = 1u128 << (63 + draw(2));
        let n = match draw(3) {
            0 => from + small(3) as u128 - small(3) as u128,
            1 => (1 << 63) + draw(1 << 63) as u128,
            _ => from + draw(1 << 62) as u128,
        };
        s.push_str(&n.to_string());
        match draw(12) {
            9 => s.push_str(".0"),
            10 => s.push_str("e0"),
            11 => s.push_str("E-1"),
            _ => {}
        }
        return s.into_bytes();
    }
    match draw(4) {
        0 => s.push('0'),
        1 => digits(1 + draw(4), &mut s),
        2 => {
            s.push((b'1' + draw(9) as u8) as char);
            let n = 15 + draw(8);
            digits(n, &mut s);
        }
        _ => s.push_str(pick(&[
            "18446744073709551615",
            "18446744073709551616",
            "9223372036854775807",
            "9223372036854775808",
            "9223372036854775809",
            "17976931348623157",
            "255",
            "256",
            "65536",
            "4294967296",
        ])),
    }
    if draw(3) == 0 {
        s.push('.');
        let n = draw(30);
        digits(n, &mut s);
    }
    if draw(3) == 0 {
        s.push(pick(&['e', 'E']));
        s.push_str(pick(&["", "+", "-"]));
        match draw(4) {
            0 => digits(1, &mut s),
            1 => digits(2, &mut s),
            2 => s.push_str(pick(&["292", "307", "308", "309", "320", "324", "330"])),
            _ => s.push_str(pick(&["", "2147483647", "2147483648", "99999999999", "00", "0001"])),
        }
    }
    let mut s = s.into_bytes();
    if draw(3) == 0 {
        // something that is almost a digit, or stands where none may
        let at = draw(s.len() as u64 + 1) as usize;
        s.insert(at, pick(b"::::::///.eE+-_0x,\0\xff"));
    }
    s
}

/// Types whose documents have numbers in them, floats preferred.
fn numeric(ops: &TypeOps, _: &Schema) -> bool {
    matches!(
        ops.name,
        "Dyn" | "f64" | "f32" | "u64" | "i64" | "u8" | "Vec<f64>" | "Vec<f32>" | "Option<f64>" | "BTreeMap<String, f64>" | "Vec<i64>"
    )
}

/// Types whose documents are made of strings.
fn textual(ops: &TypeOps, _: &Schema) -> bool {
    matches!(
        ops.name,
        "Probe<String>"
            | "String"
            | "char"
            | "Option<char>"
            | "Option<String>"
            | "Vec<Probe<String>>"
            | "Vec<Option<String>>"
            | "[Option<String>; 2]"
            | "[char; 2]"
            | "Dyn"
            | "BTreeMap<String, Probe<u64>>"
    )
}

/// What can stand between the quotes of a string, and what can't.
fn string_soup() -> Vec<u8> {
    let mut out = Vec::new();
    for _ in 0..1 + if draw(2) == 0 { 0 } else { small(3) } {
        match draw(5) {
            // escapes around the surrogates
            0 if draw(2) == 1 => {
                // a pair, or almost one
                let high = match draw(4) {
                    0 => 0xd800 + draw(0x400),
                    1 => 0xdbff,
                    2 => 0xd800,
                    _ => pick(&[0xd7ff, 0xdc00, 0xd83d, 0xdbfe]),
                };
                let low = match draw(4) {
                    0 => 0xdc00 + draw(0x400),
                    1 => 0xe000 + draw(0x800),
                    2 => 0xd400 + draw(0x800),
                    _ => pick(&[0xdc00, 0xdfff, 0xe000, 0xdbff, 0, 0xffff]),
                };
                // the second one rarely is none at all
                let start = pick(&["\\u", "\\u", "\\u", "\\u", "\\u", "\\u", "\\U", "\\x", "u", "\\", "/u", ""]);
                out.extend_from_slice(format!("\\u{:04x}{}{:04X}", high, start, low).as_bytes());
            }
            0 | 1 => {
                for _ in 0..1 + draw(2) {
                    let unit = match draw(3) {
                        0 => draw(0x10000),
                        1 => pick(&[0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xffff, 0]),
                        _ => 0xd800 + draw(0x800),
                    };
                    let text = match draw(12) {
                        0 => format!("\\u{:x}", unit),
                        1 => format!("\\U{:04x}", unit),
                        2 => format!("u{:04x}", unit),
                        3 | 4 | 5 => format!("\\u{:04X}", unit),
                        _ => format!("\\u{:04x}", unit),
                    };
                    out.extend_from_slice(text.as_bytes());
                }
            }
            // a hex digit which is none
            2 => {
                out.extend_from_slice(b"\\u0041");
                let n = out.len();
                out[n - 1 - draw(4) as usize] = 0x20 + draw(0x60) as u8;
            }
            // a simple escape of any character
            3 => {
                out.push(b'\\');
                out.push(draw(128) as u8);
            }
            // almost UTF-8
            _ => {
                let c = char::from_u32(pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]))
                    .unwrap();
                let mut buf = [0; 4];
                let mut bytes = c.encode_utf8(&mut buf).as_bytes().to_vec();
                match draw(4) {
                    0 => {
                        let i = draw(bytes.len() as u64) as usize;
                        bytes[i] ^= 1 << draw(8);
                    }
                    1 => {
                        bytes.pop();
                    }
                    2 => bytes.push(0x80 + draw(64) as u8),
                    _ => {}
                }
                out.extend(bytes);
            }
        }
    }
    out
}

pub fn c07() {
    // one in eight documents is about numbers only
    // and another one about strings
    let about = draw(100);
    let (numbers, texts) = (about >= 88, (78..88).contains(&about));
    let mut case = match (numbers, texts) {
        (true, _) => Case::new(numeric, 4, false),
        (_, true) => Case::new(textual, 4, false),
        _ => Case::new(any_type, 4, false),
    };
    let names = case.names();
    if !numbers && !texts && pct(40) {
        for _ in 0..1 + small(2) {
            link::mutate(&mut case.node, &names);
        }
    }
    let style = json::Style {
        spaces: draw(2) == 1,
        escapes: draw(2) == 1,
        numbers: draw(2) == 1,
    };
    let mut data = json::write(&case.node, &style).into_bytes();
    if numbers || pct(15) {
        // replace a number
        let starts: Vec<usize> = (0..data.len())
            .filter(|&i| data[i].is_ascii_digit() && (i == 0 || !data[i - 1].is_ascii_digit()))
            .collect();
        if !starts.is_empty() {
            let mut at = starts[draw(starts.len() as u64) as usize];
            let mut end = (at..data.len())
                .find(|&i| !data[i].is_ascii_digit())
                .unwrap_or(data.len());
            if draw(2) == 1 {
                // all of it
                let part = |b: u8| b.is_ascii_digit() || b"+-.eE".contains(&b);
                while at > 0 && part(data[at - 1]) {
                    at -= 1;
                }
                while end < data.len() && part(data[end]) {
                    end += 1;
                }
            }
            data.splice(at..end, number_soup());
            count("fault.replacement");
        }
    }
    if texts || !numbers && pct(15) {
        // something special inside of a string, or instead of it
        let quotes: Vec<usize> = (0..data.len()).filter(|&i| data[i] == b'"').collect();
        if !quotes.is_empty() {
            let mut n = draw(quotes.len() as u64) as usize;
            if texts {
                n &= !1;
            }
            let at = quotes[n] + 1;
            let end = match quotes.get(n + 1) {
                Some(&end) if draw(2) == 1 => end,
                _ => at,
            };
            data.splice(at..end, string_soup());
            count("fault.replacement");
        }
    }
    if !numbers && !texts {
        match draw(8) {
            // one token too many or too few
            7 => link::mutate_tokens(&mut data),
            _ => {
                for _ in 0..small(3) {
                    link::mutate_bytes(&mut data);
                }
            }
        }
    }
    tr(|| format!("input {:?}", String::from_utf8_lossy(&data)));
    w(|w| {
        for b in &data {
            w.hash = mix(w.hash ^ *b as u64);
        }
    });
    let (doc, borderline) = json::parse(&data);
    // the input lives in its own allocation of exactly this size
    let input = data.clone().into_boxed_slice();
    begin(Fault::None, u64::MAX);
    let text = std::str::from_utf8(&input).ok();
    let out = match text {
        Some(text) if draw(2) == 1 => guarded(|| (case.ops.from_json_str)(text)),
        _ => guarded(|| (case.ops.from_json)(&input)),
    };
    tr(|| format!("-> {}", unit_ref(&out)));
    sample(|| {
        format!(
            "{} {:?} -> {}",
            case.ops.name,
            String::from_utf8_lossy(&data),
            unit_ref(&out)
        )
    });
    if doc.is_err() {
        nontrivial();
        count("documents.malformed");
    } else {
        count("documents.well_formed");
    }
    if data.len() > 3 {
        nontrivial();
    }
    let expected = match doc {
        Err(e) => Err((e.to_string(), None)),
        Ok(ref node) => decode(&case.schema, node, &mut 0)
            .map_err(|(at, kind)| (format!("{:?} at event {}", kind, at), Some(kind))),
    };
    match (out, expected) {
        (Outcome::Ok(v), Ok(e)) => {
            count("documents.accepted");
            let v = v.val().canon();
            check_strings(&v);
            if pct(25) {
                cut_short(&case, &data);
            }
            if !same(&v, &e.canon(), true) && !borderline {
                violate(
                    "wrong-value",
                    format!("{:?}: got {:?}, expected {:?}", show(&data), v, e.canon()),
                );
            }
        }
        (Outcome::Ok(v), Err((e, _))) => {
            let v = v.val().canon();
            check_strings(&v);
            if !borderline {
                violate(
                    "malformed-accepted",
                    format!("{} was read as {:?}, but: {}", show(&data), v, e),
                );
            }
        }
        (Outcome::Err(e), Ok(v)) => {
            if !borderline {
                violate(
                    "well-formed-refused",
                    format!("{} was refused with {}, but is {:?}", show(&data), e, v.canon()),
                );
            }
        }
        (Outcome::Err(e), Err((expected, kind))) => {
            count("documents.refused");
            // what the target type says to a well-formed document arrives unchanged
            if kind.map_or(false, |kind| kind != e.kind()) && !borderline {
                violate(
                    "wrong-error",
                    format!("{}: got {}, expected {}", show(&data), e, expected),
                );
            }
        }
        (other, _) => violate(
            "panic",
            format!("{} -> {}", show(&data), unit_ref(&other)),
        ),
    }
    if draw(4) == 0 {
        ask_again(&case, &input, borderline);
    }
    drop(input);
}

/// An acceptable document that is cut off after one of its tokens has to be refused because
/// of that and not for another reason.
fn cut_short(case: &Case, data: &[u8]) {
    let mut ends = Vec::new();
    let (mut string, mut escape) = (false, false);
    for (i, &b) in data.iter().enumerate() {
        let structure = |b: u8| b"{}[],: \t\r\n".contains(&b);
        match (string, b) {
            (true, _) if escape => escape = false,
            (true, b'\\') => escape = true,
            (true, b'"') => {
                string = false;
                ends.push(i + 1);
            }
            (true, _) => {}
            (false, b'"') => string = true,
            (false, b) if structure(b) => ends.push(i + 1),
            (false, _) => {
                if data.get(i + 1).map_or(true, |&b| structure(b)) {
                    ends.push(i + 1);
                }
            }
        }
    }
    ends.insert(0, 0);
    let end = ends[draw(ends.len() as u64) as usize];
    let input = data[..end].to_vec().into_boxed_slice();
    if json::parse(&input).0.is_ok() {
        return;
    }
    count("documents.cut_between_tokens");
    match guarded(|| (case.ops.from_json)(&input)) {
        Outcome::Err(e) if e.kind() == ErrorKind::EndOfFile => {}
        other => violate(
            "wrong-error",
            format!("{} cut off after {} bytes: {}", show(data), end, unit_ref(&other)),
        ),
    }
}

/// A reader that is used again after its end or a failure: it must not harm, it has
/// nothing left after a whole document, and whatever it still reads is in the text.
fn ask_again(case: &Case, input: &[u8], borderline: bool) {
    let mut all = Vec::new();
    let out = guarded_v(|| {
        (case.ops.from_json_more)(input, &mut |rv| {
            let _g = crate::alloc::untracked();
            all.push(rv.map(|v| v.val().canon()).map_err(|e| e.kind()));
            all.len() < 4
        })
    });
    count("checks.asked_again");
    tr(|| format!("asked again: {:?}", all));
    if !matches!(out, Outcome::Ok(())) {
        violate(
            "panic",
            format!("{}: reading again ended with {}", show(input), unit_ref(&out)),
        );
        return;
    }
    for (n, rv) in all.iter().enumerate() {
        if let Ok(v) = rv {
            check_strings(v);
            if n == 0 || borderline {
                continue;
            }
            let found = all[..n].iter().all(|x| x.is_err())
                && (1..input.len()).any(|at| {
                    let (node, borderline) = json::parse(&input[at..]);
                    borderline
                        || node.map_or(false, |node| {
                            decode(&case.schema, &node, &mut 0)
                                .map_or(false, |e| same(v, &e.canon(), true))
                        })
                });
            if !found {
                violate(
                    "wrong-value",
                    format!("{}: reading it again and again gave {:?}", show(input), all),
                );
            }
        }
    }
}

fn unit_ref<T>(o: &Outcome<T>) -> String {
    o.describe()
}

fn show(data: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(data))
}

/// Strings have to be valid, whatever was in the input.
fn check_strings(v: &Val) {
    match v {
        Val::Str(s) => {
            if std::str::from_utf8(s.as_bytes()).is_err() {
                violate("invalid-utf8", "a string is not valid UTF-8");
            }
        }
        Val::Char(c) => {
            if char::from_u32(*c as u32).is_none() {
                violate("invalid-utf8", "a char is not valid");
            }
        }
        Val::Some(v) | Val::Probe(_, v) => check_strings(v),
        Val::Seq(v) | Val::Set(v) => v.iter().for_each(check_strings),
        Val::Map(v) => v.iter().for_each(|(k, v)| {
            check_strings(k);
            check_strings(v)
        }),
        Val::Struct(v) => v.iter().for_each(|(_, v)| check_strings(v)),
        _ => {}
    }
}

// ---------------------------------------------------------------- C08: round trips

/// The value which arrives if nothing goes wrong: missing fields are filled in.
fn arrived(case: &Case, json: bool) -> Result<Val, (usize, ErrorKind)> {
    let node = if json {
        json::project(&case.node)
    } else {
        case.node.clone()
    };
    decode(&case.schema, &node, &mut 0)
}

pub fn c08() {
    let use_json = draw(3) > 0;
    let mut case = Case::new(|_, s| !use_json || s.json_ok(), 5, !use_json);
    if case.node.size() > 2 {
        nontrivial();
    }
    let how = if pct(30) { draw(5) } else { 0 };
    let names = case.names();
    let expected = match arrived(&case, use_json) {
        Ok(v) => v.canon(),
        Err(e) => {
            // skips a field which is required
            // or has two fields of the same name
            if !types::is_lossy(case.ops.name) {
                violate("model", format!("the model refuses its own value: {:?}", e));
            }
            return;
        }
    };
    // A value survives, except for what was left out on purpose.
    if !same(&expected, &case.val.canon(), use_json) {
        count("values.with_omissions");
    }
    if use_json {
        let mut text = None;
        let wrap = draw(3);
        case.value.with_ref(how, &mut |v| {
            begin(Fault::None, u64::MAX);
            text = Some(if wrap == 1 {
                let p = deser_path::PathSerializable::wrap(v);
                guarded(|| deser_json::to_string(&p))
            } else {
                guarded(|| deser_json::to_string(v))
            });
        });
        let text = match text.unwrap() {
            Outcome::Ok(text) => text,
            other => {
                violate("failed", format!("to_string: {}", other.describe()));
                return;
            }
        };
        tr(|| format!("JSON {}", text));
        sample(|| format!("{} {}", case.ops.name, text));
        // an independent reader understands it
        match json::parse(text.as_bytes()).0 {
            Ok(doc) => {
                if !json::same_doc(&doc, &json::project(&case.node)) {
                    violate(
                        "wrong-document",
                        format!("{} does not stand for {:?}", text, case.node),
                    );
                }
            }
            Err(e) => violate("malformed-document", format!("{}: {}", text, e)),
        }
        let other_style;
        let input: &str = if draw(2) == 0 {
            &text
        } else {
            // somebody else wrote the document
            other_style = json::write(
                &json::project(&case.node),
                &json::Style {
                    spaces: true,
                    escapes: true,
                    numbers: true,
                },
            );
            tr(|| format!("rewritten {}", other_style));
            &other_style
        };
        begin(Fault::None, u64::MAX);
        let out = if draw(2) == 0 {
            guarded(|| (case.ops.from_json_str)(input))
        } else {
            guarded(|| (case.ops.from_json)(input.as_bytes()))
        };
        match out {
            Outcome::Ok(v) => {
                let v = v.val().canon();
                if !same(&v, &expected, true) {
                    violate(
                        "value-changed",
                        format!("{}: {:?} became {:?}", input, expected, v),
                    );
                }
            }
            other => violate("refused", format!("{}: {}", input, unit_ref(&other))),
        }
        count("roundtrips.json");
    } else {
        let mut cfg = Cfg::new(any_layer());
        let mut run = None;
        case.value.with_ref(how, &mut |v| run = Some(run_ser(v, &cfg)));
        let run = run.unwrap();
        if !run.complete {
            violate("failed", format!("serialize: {}", run.outcome.describe()));
            return;
        }
        if run.events.len() != case.node.size() {
            violate(
                "wrong-stream",
                format!("{} events, expected {}", run.events.len(), case.node.size()),
            );
            return;
        }
        cfg.layer = any_layer();
        cfg.lend = draw(2) == 1;
        cfg.direct = draw(2) == 1;
        if pct(20) {
            cfg.relocate = Some(draw(run.events.len() as u64 + 1) as usize);
        }
        let mut slot = (case.ops.slot)();
        let de = run_de(&mut *slot, &run.events, &names, &cfg);
        sample(|| format!("{} {} events {:?}", case.ops.name, run.events.len(), cfg.layer));
        match (de.outcome, slot.peek()) {
            (Outcome::Ok(()), Some(v)) => {
                let v = v.canon();
                if !same(&v, &expected, false) {
                    violate("value-changed", format!("{:?} became {:?}", expected, v));
                }
            }
            (Outcome::Ok(()), None) => violate("lost-value", "there is no value"),
            (other, _) => violate("refused", other.describe()),
        }
        count("roundtrips.events");
        // straight from one driver into the other
        if pct(40) {
            let mut slot = (case.ops.slot)();
            begin(Fault::None, u64::MAX);
            let out = guarded(|| {
                let mut to = make_driver(&mut *slot, &Cfg::new(Layer::Bare));
                let mut from = deser::ser::SerializeDriver::new(case.value.ser());
                while let Some((event, _, _)) = from.next()? {
                    to.emit(event)?;
                }
                Ok(())
            });
            match (out, slot.peek()) {
                (Outcome::Ok(()), Some(v)) if same(&v.canon(), &expected, false) => {}
                (out, v) => violate(
                    "value-changed",
                    format!("{:?} became {:?} ({})", expected, v, out.describe()),
                ),
            }
            count("roundtrips.streamed");
        }
    }
}

// ---------------------------------------------------------------- C09: locations

pub fn c09() {
    if chance(1, 250) {
        return crate::deep::deep_state(true);
    }
    if draw(2) == 0 {
        let mut case = Case::new(any_type, 4, true);
        let mut cfg = Cfg::new(Layer::PathInst);
        cfg.watch.path = true;
        let fault = pct(20);
        if fault {
            let dry = run_ser(case.value.ser(), &cfg);
            cfg.fault = Fault::Error;
            cfg.at = draw(dry.points.max(1));
        }
        if case.node.size() > 2 {
            nontrivial();
        }
        sample(|| format!("serialize {} {}", case.ops.name, cfg.describe()));
        let how = if pct(25) { draw(5) } else { 0 };
        let mut run = None;
        case.value.with_ref(how, &mut |v| run = Some(run_ser(v, &cfg)));
        let run = run.unwrap();
        unexpected_panic(&run.outcome);
    } else {
        let mut case = Case::new(any_type, 4, true);
        let names = case.names();
        for _ in 0..small(2) {
            link::mutate(&mut case.node, &names);
        }
        let events = case.node.events();
        let mut cfg = Cfg::new(Layer::PathInst);
        cfg.watch.path = true;
        cfg.check_path = true;
        if pct(40) {
            let mut slot = (case.ops.slot)();
            let dry = run_de(&mut *slot, &events, &names, &cfg);
            cfg.fault = Fault::Error;
            cfg.at = draw(dry.points.max(1));
        }
        if events.len() > 2 {
            nontrivial();
        }
        sample(|| {
            format!(
                "deserialize {} {} events {}",
                case.ops.name,
                events.len(),
                cfg.describe()
            )
        });
        let mut slot = (case.ops.slot)();
        let run = run_de(&mut *slot, &events, &names, &cfg);
        unexpected_panic(&run.outcome);
    }
}

// ---------------------------------------------------------------- C10: the state

pub fn c10() {
    if chance(1, 250) {
        return crate::deep::deep_state(false);
    }
    let layer = if draw(3) == 0 {
        Layer::PathInst
    } else {
        Layer::Inst
    };
    let mut cfg = Cfg::new(layer);
    cfg.watch.state = true;
    cfg.watch.unique_names = true;
    cfg.check_state = true;
    cfg.log_state = true;
    if draw(2) == 0 {
        let case = Case::new(any_type, 4, true);
        let exp = expect_ser(&case.snode, true, true, true);
        let dry = run_ser(case.value.ser(), &cfg);
        check_history("wrong-state", &dry.log, &exp, dry.outcome.is_ok());
        unexpected_panic(&dry.outcome);
        if pct(40) && dry.points > 0 {
            cfg.fault = Fault::Error;
            cfg.at = draw(dry.points);
            let run = run_ser(case.value.ser(), &cfg);
            check_history("wrong-state", &run.log, &exp, false);
        }
        if case.node.size() > 2 {
            nontrivial();
        }
        sample(|| format!("serialize {} {}", case.ops.name, cfg.describe()));
    } else {
        let mut case = Case::new(any_type, 4, true);
        let names = case.names();
        for _ in 0..small(2) {
            link::mutate(&mut case.node, &names);
        }
        let events = case.node.events();
        cfg.lend = draw(2) == 1;
        cfg.layer = pick(&[Layer::Inst, Layer::Inst, Layer::PathInst, Layer::Path, Layer::Bare]);
        cfg.faces = crate::model::faces(&case.schema, &case.node);
        if pct(50) {
            let mut slot = (case.ops.slot)();
            let dry = run_de(&mut *slot, &events, &names, &cfg);
            cfg.fault = Fault::Error;
            cfg.at = draw(dry.points.max(1));
        }
        if pct(20) {
            cfg.relocate = Some(draw(events.len() as u64 + 1) as usize);
        }
        let mut slot = (case.ops.slot)();
        let run = run_de(&mut *slot, &events, &names, &cfg);
        unexpected_panic(&run.outcome);
        if events.len() > 2 {
            nontrivial();
        }
        sample(|| format!("deserialize {} {}", case.ops.name, cfg.describe()));
    }
}

// ---------------------------------------------------------------- C14: damaged documents

pub fn c14() {
    let mut case = Case::new(any_type, 4, false);
    let names = case.names();
    for _ in 0..1 + small(4) {
        link::mutate(&mut case.node, &names);
    }
    nontrivial();
    let use_json = draw(3) == 0 && json::representable(&case.node);
    if use_json {
        let node = json::project(&case.node);
        let style = json::Style {
            spaces: false,
            escapes: false,
            numbers: false,
        };
        let text = json::write(&node, &style);
        // small positive I64 are read back as U64
        let (doc, borderline) = json::parse(text.as_bytes());
        let node = match doc {
            Ok(doc) => doc,
            Err(e) => {
                violate("model", format!("{}: {}", text, e));
                return;
            }
        };
        let expected = decode(&case.schema, &node, &mut 0);
        begin(Fault::None, u64::MAX);
        let out = guarded(|| (case.ops.from_json_str)(&text));
        sample(|| format!("{} {} -> {}", case.ops.name, text, unit_ref(&out)));
        tr(|| format!("{} -> {}", text, unit_ref(&out)));
        if borderline {
            return;
        }
        match (out, expected) {
            (Outcome::Ok(v), Ok(e)) => {
                let v = v.val().canon();
                if !same(&v, &e.canon(), true) {
                    violate(
                        "wrong-value",
                        format!("{}: got {:?}, expected {:?}", text, v, e.canon()),
                    );
                }
            }
            (Outcome::Err(e), Err((_, kind))) => {
                if e.kind() != kind {
                    violate("wrong-error", format!("{}: {} expected {:?}", text, e, kind));
                }
            }
            (Outcome::Ok(v), Err(e)) => violate(
                "accepted",
                format!("{} was accepted as {:?}, expected {:?}", text, v.val(), e),
            ),
            (Outcome::Err(e), Ok(v)) => violate(
                "refused",
                format!("{} was refused with {}, expected {:?}", text, e, v),
            ),
            (other, _) => violate("panic", unit_ref(&other)),
        }
    } else {
        let events = case.node.events();
        let expected = decode(&case.schema, &case.node, &mut 0);
        let mut cfg = Cfg::new(any_layer());
        cfg.lend = draw(2) == 1;
        let mut slot = (case.ops.slot)();
        let run = run_de(&mut *slot, &events, &names, &cfg);
        sample(|| {
            format!(
                "{} {:?} -> {}",
                case.ops.name,
                case.node,
                run.outcome.describe()
            )
        });
        tr(|| format!("-> {}, model: {:?}", run.outcome.describe(), expected));
        check_outcome(&run, &expected, &events);
        if let (Outcome::Ok(()), Ok(e)) = (&run.outcome, &expected) {
            match slot.peek() {
                Some(v) => {
                    if !same(&v.canon(), &e.canon(), false) {
                        violate(
                            "wrong-value",
                            format!("got {:?}, expected {:?}", v.canon(), e.canon()),
                        );
                    }
                }
                None => violate("lost-value", "there is no value"),
            }
        }
    }
}

// ---------------------------------------------------------------- C15: JSON writing

fn first_unsupported(node: &Node) -> bool {
    match node {
        Node::Atom(a) => matches!(a, Atom::Bytes(_)),
        Node::Seq(items) => items.iter().any(first_unsupported),
        Node::Map(items) => items.iter().any(|(k, v)| {
            !matches!(k, Node::Atom(Atom::Str(_) | Atom::Char(_))) || first_unsupported(v)
        }),
    }
}

pub fn c15() {
    let case = Case::new(any_type, 4, true);
    let layer = any_layer();
    let unsupported = first_unsupported(&case.node);
    let run = |fault: Fault, at: u64, alloc_at: Option<u64>| {
        use crate::probe::ISer;
        use deser::ser::SerializeHandle;
        begin(fault, at);
        alloc::reset_count();
        if let Some(n) = alloc_at {
            alloc::fail_at(n);
        }
        let value = case.value.ser();
        let out = match layer {
            Layer::Bare => guarded(|| deser_json::to_string(value)),
            Layer::Path => {
                let root = deser_path::PathSerializable::wrap(value);
                guarded(|| deser_json::to_string(&root))
            }
            Layer::Inst => {
                let root = ISer::root(SerializeHandle::Borrowed(value), Watch::default());
                guarded(|| deser_json::to_string(&root))
            }
            Layer::PathInst => {
                let root = ISer::root(SerializeHandle::Borrowed(value), Watch::default());
                let root = deser_path::PathSerializable::wrap(&root);
                guarded(|| deser_json::Serializer::new().serialize(&root))
            }
        };
        let allocs = alloc::count();
        let failed = alloc::failed();
        alloc::reset_count();
        (out, allocs, failed)
    };
    let kind = draw(4);
    let fault = [Fault::None, Fault::Error, Fault::Panic, Fault::None][kind as usize];
    let (dry, allocs, _) = run(fault, u64::MAX, None);
    let n = points();
    let check_ok = |text: &str| match json::parse(text.as_bytes()).0 {
        Ok(doc) => {
            if !json::same_doc(&doc, &json::project(&case.node)) {
                violate(
                    "wrong-document",
                    format!("{} does not stand for {:?}", text, case.node),
                );
            }
        }
        Err(e) => violate("malformed-document", format!("{}: {}", text, e)),
    };
    let full = match dry {
        Outcome::Ok(text) => {
            if unsupported {
                violate(
                    "unsupported-accepted",
                    format!("{:?} was written as {}", case.node, text),
                );
            }
            check_ok(&text);
            Some(text)
        }
        Outcome::Err(e) => {
            if !unsupported || e.kind() != ErrorKind::UnsupportedType {
                violate("failed", format!("{:?}: {}", case.node, e));
            }
            None
        }
        other => {
            violate("panic", other.describe());
            return;
        }
    };
    if unsupported {
        count("documents.unsupported");
    } else {
        count("documents.complete");
    }
    if case.node.size() > 1 {
        nontrivial();
    }
    if violated() {
        return;
    }
    let (at, alloc_at) = match kind {
        0 => return,
        3 => (u64::MAX, Some(draw(allocs.max(1)))),
        _ => (draw(n.max(1)), None),
    };
    tr(|| format!("again with {:?}@{} alloc {:?}", fault, at, alloc_at));
    let (out, _, alloc_failed) = run(fault, at, alloc_at);
    tr(|| format!("-> {}", out.describe()));
    sample(|| {
        format!(
            "{} {:?}@{} {:?} -> {}",
            case.ops.name,
            fault,
            at,
            alloc_at,
            out.describe()
        )
    });
    let hit = fired();
    if hit || alloc_failed {
        nontrivial();
    }
    match out {
        Outcome::Ok(text) => {
            if hit {
                violate(
                    "fault-not-reported",
                    format!("a callback failed but the result is {}", text),
                );
            }
            if full.as_deref() != Some(&text[..]) {
                violate(
                    "nondeterministic-document",
                    format!("{:?} the first time, {} the second time", full, text),
                );
            }
        }
        Outcome::Err(e) => {
            if hit {
                if injected_in(&e) != Some(at) {
                    violate("fault-not-reported", format!("the error is {}", e));
                }
            } else if !unsupported || e.kind() != ErrorKind::UnsupportedType {
                violate("failed", format!("no fault, but the error is {}", e));
            }
        }
        Outcome::Injected(n) => {
            if !hit || n != at {
                violate("panic", "unexpected panic");
            }
        }
        Outcome::Alloc => {
            if !alloc_failed {
                violate("panic", "unexpected allocation failure");
            }
        }
        other => violate("panic", other.describe()),
    }
}

pub fn slot_of(case: &Case) -> Box<dyn DynSlot> {
    (case.ops.slot)()
}

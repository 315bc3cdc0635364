//! C12: the debug format, written into writers which fail.
use crate::core::*;
use crate::drive::*;
use crate::model::{SBody, SField, SNode};
use crate::sched;
use deser::Atom;
use deser_debug::ToDebug;
use std::fmt::{self, Write};
use std::sync::Arc;

// ---------------------------------------------------------------- reference

enum R {
    Leaf(String, Option<Atom<'static>>),
    Map(String, Vec<(R, R)>),
    Seq(String, Vec<R>),
}

fn leaf(atom: &Atom) -> String {
    match atom {
        Atom::Null => "()".into(),
        Atom::Bool(v) => v.to_string(),
        Atom::Str(v) => format!("{:?}", v),
        Atom::Bytes(v) => {
            let mut s = String::from("b\"");
            for &b in v.iter() {
                match b {
                    b'\n' => s.push_str("\\n"),
                    b'\r' => s.push_str("\\r"),
                    b'\t' => s.push_str("\\t"),
                    0 => s.push_str("\\0"),
                    b'\\' | b'"' => {
                        s.push('\\');
                        s.push(b as char)
                    }
                    0x20..=0x7e => s.push(b as char),
                    _ => s.push_str(&format!("\\x{:02x}", b)),
                }
            }
            s.push('"');
            s
        }
        Atom::Char(v) => format!("{:?}", v),
        Atom::U64(v) => v.to_string(),
        Atom::I64(v) => v.to_string(),
        Atom::F64(v) => format!("{:?}", v),
        other => format!("{:?}", other),
    }
}

fn build(node: &SNode) -> R {
    let prefix = |skip: bool| match node.name {
        Some(ref n) if !skip => format!("{} ", n),
        _ => String::new(),
    };
    match &node.body {
        SBody::Atom(a) => R::Leaf(leaf(a), Some(a.to_static())),
        SBody::Seq(items) => R::Seq(
            prefix(matches!(node.name.as_deref(), Some("Vec" | "slice"))),
            items.iter().map(build).collect(),
        ),
        SBody::Map(items) => R::Map(
            prefix(false),
            items.iter().map(|(k, v)| (build(k), build(v))).collect(),
        ),
        SBody::Struct(fields) => R::Map(
            prefix(false),
            fields
                .iter()
                .filter_map(|f| match f {
                    SField::Field(k, v) => {
                        Some((R::Leaf(format!("{:?}", k), Some(Atom::Str(k.clone().into()))), build(v)))
                    },
                    _ => None,
                })
                .collect(),
        ),
    }
}

fn render(r: &R, pretty: bool, indent: usize, out: &mut String) {
    let line = |out: &mut String, n: usize| {
        out.push('\n');
        out.push_str(&"    ".repeat(n));
    };
    match r {
        R::Leaf(s, _) => out.push_str(s),
        R::Seq(prefix, items) => {
            out.push_str(prefix);
            out.push('[');
            for (i, item) in items.iter().enumerate() {
                if pretty {
                    line(out, indent + 1);
                } else if i > 0 {
                    out.push_str(", ");
                }
                render(item, pretty, indent + 1, out);
                if pretty {
                    out.push(',');
                }
            }
            if pretty && !items.is_empty() {
                line(out, indent);
            }
            out.push(']');
        }
        R::Map(prefix, items) => {
            out.push_str(prefix);
            out.push('{');
            for (i, (k, v)) in items.iter().enumerate() {
                if pretty {
                    line(out, indent + 1);
                } else if i > 0 {
                    out.push_str(", ");
                }
                render(k, pretty, indent + 1, out);
                out.push_str(": ");
                render(v, pretty, indent + 1, out);
                if pretty {
                    out.push(',');
                }
            }
            if pretty && !items.is_empty() {
                line(out, indent);
            }
            out.push('}');
        }
    }
}

/// With the flags of the formatter handed on to the leaves, whatever they are.
impl fmt::Debug for R {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            R::Leaf(s, atom) => match atom {
                Some(Atom::Null) => fmt::Debug::fmt(&(), f),
                Some(Atom::Bool(v)) => fmt::Debug::fmt(v, f),
                Some(Atom::Str(v)) => fmt::Debug::fmt(&v[..], f),
                Some(Atom::Char(v)) => fmt::Debug::fmt(v, f),
                Some(Atom::U64(v)) => fmt::Debug::fmt(v, f),
                Some(Atom::I64(v)) => fmt::Debug::fmt(v, f),
                Some(Atom::F64(v)) => fmt::Debug::fmt(v, f),
                _ => f.write_str(s),
            },
            R::Seq(prefix, items) => {
                f.write_str(prefix)?;
                f.debug_list().entries(items).finish()
            }
            R::Map(prefix, items) => {
                f.write_str(prefix)?;
                f.debug_map().entries(items.iter().map(|(k, v)| (k, v))).finish()
            }
        }
    }
}

// ---------------------------------------------------------------- the writer

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    None,
    /// the nth write fails, and all after it
    Dead(usize),
    /// the nth write fails, further ones work
    Once(usize),
    /// there is room for this many bytes
    Full(usize),
    /// the nth write panics
    Panic(usize),
}

struct FaultyWriter {
    out: String,
    writes: usize,
    trouble: Trouble,
    failed: bool,
    after: usize,
    /// formats something else in the middle of the nth write
    nested: Option<(usize, Arc<ToDebug>, String)>,
}

impl FaultyWriter {
    fn new(trouble: Trouble) -> FaultyWriter {
        FaultyWriter {
            out: String::new(),
            writes: 0,
            trouble,
            failed: false,
            after: 0,
            nested: None,
        }
    }
}

impl Write for FaultyWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let _g = crate::alloc::untracked();
        sched::yield_point();
        let n = self.writes;
        self.writes += 1;
        stir(s.len() as u64);
        if self.failed {
            self.after += 1;
            if self.after > 10_000 {
                violate("unbounded", "it is written on and on after a failure");
                std::panic::resume_unwind(Box::new(StopRun));
            }
        }
        if self.writes > 2_000_000 {
            violate("unbounded", "more than two million writes");
            std::panic::resume_unwind(Box::new(StopRun));
        }
        if let Some((at, ref other, ref exp)) = self.nested {
            if at == n {
                count("fault.reentrancy");
                let got = format!("{:?}", other);
                if got != *exp {
                    violate("wrong-output", format!("nested: {} instead of {}", got, exp));
                }
            }
        }
        match self.trouble {
            Trouble::Dead(at) if n >= at => {
                if n == at {
                    count("fault.write_error");
                }
                self.failed = true;
                Err(fmt::Error)
            }
            Trouble::Once(at) if n == at => {
                count("fault.transient_write_error");
                self.failed = true;
                Err(fmt::Error)
            }
            Trouble::Panic(at) if n == at => {
                count("fault.writer_panic");
                self.failed = true;
                std::panic::resume_unwind(Box::new(InjectedPanic(at as u64)));
            }
            Trouble::Full(room) if self.failed || self.out.len() + s.len() > room => {
                if !self.failed {
                    count("fault.short_write");
                    let mut cut = room - self.out.len();
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    self.out.push_str(&s[..cut]);
                }
                self.failed = true;
                Err(fmt::Error)
            }
            _ => {
                self.out.push_str(s);
                Ok(())
            }
        }
    }
}

fn format_into(writer: &mut FaultyWriter, what: &ToDebug, how: u64) -> Outcome<bool> {
    guarded_v(|| {
        match how {
            0 => write!(writer, "{:?}", what),
            1 => write!(writer, "{:#?}", what),
            2 => write!(writer, "{}", what),
            3 => write!(writer, "{:#}", what),
            4 => write!(writer, "{:7?}", what),
            6 => write!(writer, "{:x?}", what),
            8 => write!(writer, "{:+.2?}", what),
            10 => write!(writer, "{:09.1}", what),
            12 => write!(writer, "{:*^8}", what),
            5 => write!(writer, "{:#X?}", what),
            7 => write!(writer, "{:#06?}", what),
            _ => write!(writer, "{:#.3}", what),
        }
        .is_ok()
    })
}

fn faulty_session(dbg: &Arc<ToDebug>, full: &str, plain: &str, how: u64, writes: usize, rounds: u64) {
    for _ in 0..rounds {
        let trouble = match draw(6) {
            0 => Trouble::None,
            1 | 2 => Trouble::Dead(draw(writes.max(1) as u64) as usize),
            3 => Trouble::Once(draw(writes.max(1) as u64) as usize),
            4 => Trouble::Full(draw(full.len() as u64 + 1) as usize),
            _ => Trouble::Panic(draw(writes.max(1) as u64) as usize),
        };
        let mut writer = FaultyWriter::new(trouble);
        if chance(1, 4) {
            writer.nested = Some((
                draw(writes.max(1) as u64) as usize,
                dbg.clone(),
                plain.to_string(),
            ));
        }
        tr(|| format!("write with {:?}", trouble));
        let out = format_into(&mut writer, dbg, how);
        tr(|| format!("-> {:?} after {:?}", out.describe(), writer.out));
        match out {
            Outcome::Ok(ok) => {
                if ok == writer.failed {
                    violate(
                        "fault-not-reported",
                        format!(
                            "the result is {}, but the writer {}",
                            if ok { "fine" } else { "an error" },
                            if writer.failed { "failed" } else { "did not fail" }
                        ),
                    );
                }
                if ok && writer.out != full {
                    violate("wrong-output", format!("{:?} instead of {:?}", writer.out, full));
                }
            }
            Outcome::Injected(_) if writer.failed => {}
            Outcome::Stop => {}
            other => violate("panic", other.describe()),
        }
        if !full.starts_with(&writer.out) {
            violate(
                "garbled-output",
                format!("{:?} is not the beginning of {:?}", writer.out, full),
            );
        }
        if writer.failed {
            nontrivial();
        }
    }
}

pub fn c12() {
    let case = Case::modest(any_type, 4, true);
    let layer = any_layer();
    begin(Fault::None, u64::MAX);
    let dbg = guarded_v(|| match layer {
        Layer::Path => ToDebug::new(&deser_path::PathSerializable::wrap(case.value.ser())),
        _ => ToDebug::new(case.value.ser()),
    });
    let dbg = match dbg {
        Outcome::Ok(dbg) => Arc::new(dbg),
        other => {
            violate("panic", other.describe());
            return;
        }
    };
    let tree = build(&case.snode);
    let mut plain = String::new();
    render(&tree, false, 0, &mut plain);
    let mut how = match draw(6) {
        5 => {
            count("reach.format_flags");
            4 + draw(10)
        }
        n => n % 4,
    };
    // pretty printing costs the cube of the depth
    let (mut depth, mut deepest) = (0usize, 0);
    for c in plain.chars() {
        match c {
            '{' | '[' | '(' => depth += 1,
            '}' | ']' | ')' => depth = depth.saturating_sub(1),
            _ => {}
        }
        deepest = deepest.max(depth);
    }
    if deepest > 100 {
        how &= !1;
    }
    let how = how;
    let mut full = String::new();
    match how {
        0..=3 => render(&tree, how % 2 == 1, 0, &mut full),
        4 => full = format!("{:7?}", tree),
        6 => full = format!("{:x?}", tree),
        8 => full = format!("{:+.2?}", tree),
        10 => full = format!("{:09.1?}", tree),
        12 => full = format!("{:*^8?}", tree),
        5 => full = format!("{:#X?}", tree),
        7 => full = format!("{:#06?}", tree),
        _ => full = format!("{:#.3?}", tree),
    }
    let mut writer = FaultyWriter::new(Trouble::None);
    let out = format_into(&mut writer, &dbg, how);
    if !matches!(out, Outcome::Ok(true)) {
        violate("failed", format!("without a fault: {}", out.describe()));
    }
    if writer.out != full {
        violate(
            "wrong-output",
            format!("{:?} instead of {:?}", writer.out, full),
        );
    }
    let writes = writer.writes;
    sample(|| format!("{} {:?}", case.ops.name, full));
    if violated() {
        return;
    }
    // (a very long text is not worth that many changes of threads)
    if writes <= 4000 && chance(1, 3) {
        // several threads format the same thing
        let mut sessions: Vec<(u32, Box<dyn FnOnce() + Send>)> = Vec::new();
        for s in 1..=2 + draw(2) as u32 {
            let (dbg, full, plain) = (dbg.clone(), full.clone(), plain.clone());
            sessions.push((
                s,
                Box::new(move || faulty_session(&dbg, &full, &plain, how, writes, 2)),
            ));
        }
        sched::run_sessions(sessions, 4 << 20);
    } else {
        let rounds = 1 + draw(4);
        faulty_session(&dbg, &full, &plain, how, writes, if writes > 50_000 { 1 } else { rounds });
    }
    // it can still be formatted
    let mut writer = FaultyWriter::new(Trouble::None);
    let out = format_into(&mut writer, &dbg, how);
    if !matches!(out, Outcome::Ok(true)) || writer.out != full {
        violate(
            "wrong-output",
            format!("after the failures: {:?} instead of {:?}", writer.out, full),
        );
    }
    drop_checked("debug", dbg);
    // a value which can't be serialized can't be formatted
    if chance(1, 4) {
        let mut ser = Cfg::new(Layer::Bare);
        ser.at = u64::MAX;
        let n = run_ser(case.value.ser(), &ser).points;
        if n > 0 {
            let at = draw(n);
            begin(Fault::Error, at);
            let out = guarded_v(|| {
                let d = ToDebug::new(case.value.ser());
                d.to_string()
            });
            if let Outcome::Ok(text) = out {
                if fired() {
                    violate(
                        "fault-not-reported",
                        format!("serialization failed, but it was formatted as {}", text),
                    );
                }
            }
        }
    }
    drop_checked("case", case);
}

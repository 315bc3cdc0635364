//! A deterministic simulator for deser: see DESIGN.md.
#![feature(alloc_error_hook)]
#![allow(dead_code)]

mod alloc;
mod core;
mod debug;
mod deep;
mod drive;
mod hand;
mod json;
mod link;
mod multi;
mod mem;
mod model;
mod probe;
mod sched;
mod types;
mod work;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

use crate::core::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

struct Prop {
    id: &'static str,
    run: fn(),
    heap: bool,
}

const PROPS: &[Prop] = &[
    Prop { id: "C01", run: work::c01, heap: false },
    Prop { id: "C02", run: work::c02, heap: true },
    Prop { id: "C03", run: work::c03, heap: true },
    Prop { id: "C04", run: work::c04, heap: false },
    Prop { id: "C05", run: work::c05, heap: false },
    Prop { id: "C06", run: work::c06, heap: false },
    Prop { id: "C07", run: work::c07, heap: true },
    Prop { id: "C08", run: work::c08, heap: false },
    Prop { id: "C09", run: work::c09, heap: false },
    Prop { id: "C10", run: work::c10, heap: false },
    Prop { id: "C11", run: deep::c11, heap: false },
    Prop { id: "C12", run: debug::c12, heap: false },
    Prop { id: "C13", run: multi::c13, heap: false },
    Prop { id: "C14", run: work::c14, heap: false },
    Prop { id: "C15", run: work::c15, heap: false },
    Prop { id: "C16", run: mem::c16, heap: true },
];

const STACK: usize = 16 << 20;

fn run_one(prop: &Prop, src: Src, tracing: bool) -> World {
    install(World::new(src, tracing));
    set_session(1);
    let seed = draw(1 << 16);
    set_entropy(seed);
    alloc::new_epoch();
    let f = prop.run;
    let rv = sched::on_thread(STACK, || {
        if std::panic::catch_unwind(f).is_err() {
            let msg = w(|w| w.last_panic.clone());
            violate("panic", format!("uncaught panic: {}", msg));
        }
    });
    if rv.is_err() {
        violate("panic", "the session died");
    }
    let live = alloc::live();
    let mut world = uninstall();
    if prop.heap && live != 0 && !world.alloc_failed && world.violation.is_none() {
        world.violate("heap-leak", format!("{} heap allocations are left", live));
    }
    world
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn main() {
    install_panic_hook();
    alloc::install_error_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let num = |name: &str, default: u64| get(name).map_or(default, |x| x.parse().unwrap());
    let id = get("--prop").expect("--prop");
    let prop = PROPS.iter().find(|p| p.id == id).expect("no such property");
    let seed = num("--seed", 1);
    match args[0].as_str() {
        // many runs: prints a summary, stops at the first violation
        "chunk" => {
            let (first, step, end) = (num("--first", 0), num("--step", 1), num("--end", 1000));
            let deadline = std::time::Instant::now()
                + std::time::Duration::from_millis(num("--millis", 1_000_000_000));
            let progress = get("--progress").map(|p| std::fs::File::create(p).unwrap());
            let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut sigs: HashSet<u64> = HashSet::new();
            let mut samples: Vec<String> = Vec::new();
            let (mut runs, mut nontrivial, mut steps, mut all) = (0u64, 0u64, 0u64, 0u64);
            let mut violation = None;
            let mut run = first;
            while run < end {
                if let Some(ref f) = progress {
                    use std::os::unix::fs::FileExt;
                    let _ = f.write_all_at(format!("{:020}", run).as_bytes(), 0);
                }
                let world = run_one(prop, Src::seeded(seed, &id, run), false);
                runs += 1;
                steps += world.steps;
                all = mix(all ^ world.hash);
                for (k, v) in &world.counters {
                    *counters.entry(k).or_insert(0) += v;
                }
                if world.nontrivial {
                    nontrivial += 1;
                    sigs.insert(world.hash);
                    if samples.len() < 6 && (run / step) % 37 == 5 {
                        samples.extend(world.sample.iter().take(1).map(|s| format!("run {}: {}", run, s)));
                    }
                }
                if let Some((class, msg)) = world.violation {
                    violation = Some((run, class, msg));
                    break;
                }
                run += step;
                if std::time::Instant::now() > deadline {
                    break;
                }
            }
            let mut sig_list: Vec<u64> = sigs.into_iter().collect();
            sig_list.sort_unstable();
            if let Some(path) = get("--sigs") {
                let mut bytes = Vec::new();
                for s in &sig_list {
                    bytes.extend_from_slice(&s.to_le_bytes());
                }
                std::fs::write(path, bytes).unwrap();
            }
            let mut out = String::from("{");
            out += &format!(
                "\"runs\":{},\"nontrivial\":{},\"steps\":{},\"hash\":\"{:016x}\",\"next\":{},\"distinct\":{},",
                runs, nontrivial, steps, all, run, sig_list.len()
            );
            out += "\"counters\":{";
            out += &counters
                .iter()
                .map(|(k, v)| format!("{}:{}", json_str(k), v))
                .collect::<Vec<_>>()
                .join(",");
            out += "},\"samples\":[";
            out += &samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
            out += "],\"violation\":";
            match violation {
                Some((run, class, msg)) => {
                    out += &format!(
                        "{{\"run\":{},\"class\":{},\"message\":{}}}",
                        run,
                        json_str(&class),
                        json_str(&msg)
                    )
                }
                None => out += "null",
            }
            out += "}";
            println!("{}", out);
        }
        // one run: from a seed or from a list of choices
        "one" => {
            let mut src = match get("--choices") {
                Some(path) => Src::replay(
                    std::fs::read_to_string(path)
                        .unwrap()
                        .split_whitespace()
                        .map(|x| x.parse().unwrap())
                        .collect(),
                ),
                None => Src::seeded(seed, &id, num("--run", 0)),
            };
            if let Some(path) = get("--record") {
                src.record_to(&path);
            }
            let trace = args.iter().any(|a| a == "--trace");
            let world = run_one(prop, src, trace);
            let mut out = String::from("{");
            out += &format!("\"hash\":\"{:016x}\",\"steps\":{},", world.hash, world.steps);
            match world.violation {
                Some((ref class, ref msg)) => {
                    out += &format!(
                        "\"violation\":{{\"class\":{},\"message\":{}}},",
                        json_str(class),
                        json_str(msg)
                    )
                }
                None => out += "\"violation\":null,",
            }
            out += "\"choices\":[";
            out += &world
                .src
                .log
                .iter()
                .map(|x| x.to_string())
                .collect::<Vec<_>>()
                .join(",");
            out += "],\"trace\":[";
            out += &world.trace.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
            out += "]}";
            println!("{}", out);
        }
        other => panic!("unknown command {}", other),
    }
    let _ = std::io::stdout().flush();
}

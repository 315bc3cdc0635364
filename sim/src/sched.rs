//! The seeded scheduler: sessions are threads of which exactly one runs at a time.
//!
//! A thread gives up control at yield points only (in callbacks and between events), and
//! who runs next is a draw.
use crate::core::{chance, count, draw, session, set_session, stir, tr};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};

struct State {
    current: usize,
    runnable: Vec<usize>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static CHANGED: Condvar = Condvar::new();
static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn wait_for(slot: usize) {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    while g.as_ref().map_or(true, |s| s.current != slot) {
        g = CHANGED.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

/// Lets another session run, if the scheduler decides so.
pub fn yield_point() {
    if !ACTIVE.load(Ordering::SeqCst) {
        return;
    }
    let slot = SLOT.with(|s| s.get());
    if slot == usize::MAX || !chance(1, 2) {
        return;
    }
    let runnable = {
        let g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        g.as_ref().unwrap().runnable.clone()
    };
    let next = runnable[draw(runnable.len() as u64) as usize];
    if next == slot {
        return;
    }
    count("sched.switches");
    stir(next as u64 ^ 0x5C4E_D000);
    tr(|| format!("-- switch to session slot {}", next));
    {
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        g.as_mut().unwrap().current = next;
        CHANGED.notify_all();
    }
    wait_for(slot);
}

/// Runs the sessions interleaved until all of them are done.
pub fn run_sessions(sessions: Vec<(u32, Box<dyn FnOnce() + Send>)>, stack: usize) {
    const MAIN: usize = usize::MAX - 1;
    let n = sessions.len();
    *STATE.lock().unwrap_or_else(|e| e.into_inner()) = Some(State {
        current: MAIN,
        runnable: (0..n).collect(),
    });
    let threads: Vec<_> = sessions
        .into_iter()
        .enumerate()
        .map(|(slot, (sess, f))| {
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    SLOT.with(|s| s.set(slot));
                    set_session(sess);
                    wait_for(slot);
                    f();
                    // hand over to another session, or back
                    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
                    let st = g.as_mut().unwrap();
                    st.runnable.retain(|x| *x != slot);
                    let left = st.runnable.clone();
                    drop(g);
                    let next = if left.is_empty() {
                        MAIN
                    } else {
                        left[draw(left.len() as u64) as usize]
                    };
                    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
                    g.as_mut().unwrap().current = next;
                    CHANGED.notify_all();
                })
                .expect("can't spawn")
        })
        .collect();
    let first = draw(n as u64) as usize;
    ACTIVE.store(true, Ordering::SeqCst);
    {
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        g.as_mut().unwrap().current = first;
        CHANGED.notify_all();
    }
    wait_for(MAIN);
    ACTIVE.store(false, Ordering::SeqCst);
    for t in threads {
        let _ = t.join();
    }
    let _ = session();
}

/// Runs a function on a fresh thread and waits for it.
pub fn on_thread<R: Send>(stack: usize, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
    let sess = session();
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                set_session(sess);
                f()
            })
            .expect("can't spawn")
            .join()
    })
}

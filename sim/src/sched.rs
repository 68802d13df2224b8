//! Cooperative scheduler for real threads: exactly one thread of a group
//! runs at a time, and it can lose the processor at every heap allocation
//! and at every `point()`. Which thread runs next, and for how many such
//! points, is a list in the scenario, so an interleaving is repeatable.
//!
//! Code under test may hold a lock while it allocates (one-time
//! initialisation). If the thread that got the processor then blocks on that
//! lock, nobody could go on; a waiting thread therefore resumes by itself
//! after `PATIENCE`.

use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

const PATIENCE: Duration = Duration::from_millis(300);

#[derive(Default)]
struct State {
    on: bool,
    /// Thread that holds the processor.
    turn: usize,
    alive: Vec<bool>,
    slices: Vec<(u8, u16)>,
    at: usize,
    switches: Vec<u8>,
}

static STATE: Mutex<State> = Mutex::new(State {
    on: false,
    turn: 0,
    alive: Vec::new(),
    slices: Vec::new(),
    at: 0,
    switches: Vec::new(),
});
static WAKE: Condvar = Condvar::new();

thread_local! {
    /// (thread number + 1, points left in this slice); zero: not scheduled.
    static ME: Cell<(usize, u32)> = const { Cell::new((0, 0)) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// A place where the running thread may lose the processor.
pub fn point() {
    let _ = ME.try_with(|m| {
        let (me, left) = m.get();
        if me == 0 {
            return;
        }
        if left > 0 {
            m.set((me, left - 1));
            return;
        }
        if BUSY.with(|b| b.replace(true)) {
            return;
        }
        pass(me - 1, true);
        BUSY.with(|b| b.set(false));
    });
}

/// Choose who runs next. `stay`: the caller is still alive.
fn pass(me: usize, stay: bool) {
    let Ok(mut s) = STATE.lock() else { return };
    if !s.on {
        return;
    }
    if s.turn == me {
        if !stay {
            s.alive[me] = false;
        }
        let n = s.alive.len();
        let pick = s.slices.get(s.at).map(|x| usize::from(x.0));
        s.at += 1;
        // Plan over: whoever is next, without further interruption.
        let start = pick.unwrap_or(me);
        if let Some(t) = (0..n).map(|k| (start + k) % n).find(|t| s.alive[*t]) {
            s.turn = t;
            if t != me && s.switches.len() < s.switches.capacity() {
                s.switches.push(t as u8);
            }
        }
        WAKE.notify_all();
    } else if !stay {
        s.alive[me] = false;
    }
    if stay {
        while s.turn != me {
            let Ok((g, t)) = WAKE.wait_timeout(s, PATIENCE) else {
                return;
            };
            s = g;
            if t.timed_out() {
                break;
            }
        }
        let quantum = match s.at.checked_sub(1).and_then(|i| s.slices.get(i)) {
            Some(x) => u32::from(x.1),
            None => u32::MAX,
        };
        ME.with(|m| m.set((me + 1, quantum)));
    }
}

/// Run one job list per thread under the given plan; the results per thread
/// and the sequence of processor changes.
pub fn run<T: Send>(
    jobs: Vec<Vec<Box<dyn FnOnce() -> T + Send + '_>>>,
    slices: &[(u8, u16)],
) -> (Vec<Vec<T>>, Vec<u8>) {
    let n = jobs.len();
    {
        let mut s = STATE.lock().unwrap();
        *s = State {
            on: true,
            // Nobody: the first choice is made below.
            turn: usize::MAX,
            alive: vec![true; n],
            slices: slices.iter().map(|x| (x.0 % n as u8, x.1)).collect(),
            at: 0,
            switches: Vec::with_capacity(slices.len() + n + 1),
        };
    }
    let out = std::thread::scope(|sc| {
        let handles: Vec<_> = jobs
            .into_iter()
            .enumerate()
            .map(|(i, list)| {
                sc.spawn(move || {
                    let mut out = Vec::with_capacity(list.len());
                    // Wait for the first turn.
                    {
                        let mut s = STATE.lock().unwrap();
                        while s.turn != i {
                            s = WAKE.wait(s).unwrap();
                        }
                        let q = match s.at.checked_sub(1).and_then(|k| s.slices.get(k)) {
                            Some(x) => u32::from(x.1),
                            None => u32::MAX,
                        };
                        drop(s);
                        ME.with(|m| m.set((i + 1, q)));
                    }
                    for j in list {
                        out.push(j());
                        point();
                    }
                    ME.with(|m| m.set((0, 0)));
                    pass(i, false);
                    out
                })
            })
            .collect();
        {
            let mut s = STATE.lock().unwrap();
            s.turn = s.slices.first().map_or(0, |x| usize::from(x.0));
            s.at = 1;
            let t = s.turn as u8;
            s.switches.push(t);
            WAKE.notify_all();
        }
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_default())
            .collect::<Vec<_>>()
    });
    let mut s = STATE.lock().unwrap();
    s.on = false;
    (out, std::mem::take(&mut s.switches))
}

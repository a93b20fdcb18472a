//! Token-passing scheduler over real threads: exactly one registered thread runs; at every visible operation the
//! next thread is taken from the prescribed schedule, or, past its end, the current thread goes on while it can.
//! Threads that are not registered (harness code outside an execution) are not scheduled at all.
use crate::real_std::{
    cell::Cell,
    sync::{Condvar, Mutex, MutexGuard},
    vec::Vec,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize),
    /// gave way (yield, spin): only runs again after some other thread has made a step, unless it is alone
    Paused,
    Done,
}
struct State {
    st: Vec<St>,
    cur: usize,
    prefix: Vec<u8>,
    pos: usize,
    started: bool,
}
static STATE: Mutex<State> = Mutex::new(State { st: Vec::new(), cur: 0, prefix: Vec::new(), pos: 0, started: false });
static WAKE: Condvar = Condvar::new();
crate::real_std::thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub const MAX_STEPS: usize = 6000;
/// shared with the exploring process: what happened in the execution
#[repr(C)]
pub struct Trace {
    pub verdict: u32,
    pub steps: u32,
    pub diverged: u32,
    pub msg_len: u32,
    /// enabled threads (bit mask), the thread that was running, whether it could have gone on, the choice made
    pub step: [[u8; 4]; MAX_STEPS],
    pub msg: [u8; 4096],
}
pub const OK: u32 = 1;
pub const DEADLOCK: u32 = 2;
pub const TOO_LONG: u32 = 3;
pub const FAILED: u32 = 4;
static mut TRACE: *mut Trace = crate::real_std::ptr::null_mut();

pub fn trace() -> &'static mut Trace {
    unsafe { &mut *TRACE }
}
pub fn set_trace(t: *mut Trace) {
    unsafe { TRACE = t }
}
pub fn finish(verdict: u32, msg: &str) -> ! {
    let t = trace();
    let n = msg.len().min(t.msg.len());
    t.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
    t.msg_len = n as u32;
    t.verdict = verdict;
    unsafe { libc::_exit(0) }
}

fn pick(s: &mut State, me: usize) {
    let mut mask = 0u8;
    for (i, t) in s.st.iter().enumerate() {
        if *t == St::Ready {
            mask |= 1 << i;
        }
    }
    if mask == 0 {
        for (i, t) in s.st.iter_mut().enumerate() {
            if *t == St::Paused {
                *t = St::Ready;
                mask |= 1 << i;
            }
        }
    }
    if mask == 0 {
        if s.st.iter().all(|t| *t == St::Done) {
            s.cur = usize::MAX;
            WAKE.notify_all();
            return;
        }
        finish(DEADLOCK, "");
    }
    let can = me != usize::MAX && mask & (1 << me) != 0;
    let default = if can { me } else { mask.trailing_zeros() as usize };
    let mut choice = default;
    let tr = trace();
    if s.pos < s.prefix.len() {
        let c = s.prefix[s.pos] as usize;
        if mask & (1 << c) != 0 {
            choice = c;
        } else {
            tr.diverged += 1;
        }
    }
    s.pos += 1;
    let k = tr.steps as usize;
    if k >= MAX_STEPS {
        finish(TOO_LONG, "");
    }
    tr.step[k] = [mask, if me == usize::MAX { 255 } else { me as u8 }, can as u8, choice as u8];
    tr.steps += 1;
    for (i, t) in s.st.iter_mut().enumerate() {
        if *t == St::Paused && i != choice {
            *t = St::Ready;
        }
    }
    s.cur = choice;
    if choice != me {
        WAKE.notify_all();
    }
}
fn wait_turn(mut s: MutexGuard<'_, State>, me: usize) {
    while s.cur != me || !s.started {
        s = WAKE.wait(s).unwrap();
    }
}
fn me() -> Option<usize> {
    let m = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if m == usize::MAX {
        None
    } else {
        Some(m)
    }
}
pub fn active() -> bool {
    me().is_some()
}
/// before a visible operation
pub fn point() {
    if let Some(m) = me() {
        let mut s = STATE.lock().unwrap();
        pick(&mut s, m);
        wait_turn(s, m);
    }
}
/// give way to the other threads
pub fn pause() {
    if let Some(m) = me() {
        let mut s = STATE.lock().unwrap();
        s.st[m] = St::Paused;
        pick(&mut s, m);
        wait_turn(s, m);
    }
}
/// the operation on `addr` cannot go on: sleep until `wake(addr)`
pub fn block(addr: usize) {
    match me() {
        Some(m) => {
            let mut s = STATE.lock().unwrap();
            s.st[m] = St::Blocked(addr);
            pick(&mut s, m);
            wait_turn(s, m);
        }
        None => crate::real_std::thread::yield_now(),
    }
}
pub fn wake(addr: usize) {
    if active() {
        let mut s = STATE.lock().unwrap();
        for t in s.st.iter_mut() {
            if *t == St::Blocked(addr) {
                *t = St::Ready;
            }
        }
    }
}
/// runs the bodies as threads under the schedule; returns when all have ended
pub fn run(prefix: &[u8], bodies: Vec<crate::real_std::boxed::Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    {
        let mut s = STATE.lock().unwrap();
        s.st = crate::real_std::vec![St::Ready; n];
        s.prefix = prefix.to_vec();
        s.pos = 0;
        s.cur = usize::MAX;
    }
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            crate::real_std::thread::spawn(move || {
                ME.with(|m| m.set(i));
                wait_turn(STATE.lock().unwrap(), i);
                b();
                let mut s = STATE.lock().unwrap();
                s.st[i] = St::Done;
                ME.with(|m| m.set(usize::MAX));
                pick(&mut s, i);
            })
        })
        .collect();
    {
        let mut s = STATE.lock().unwrap();
        s.started = true;
        pick(&mut s, usize::MAX);
        WAKE.notify_all();
    }
    for h in hs {
        let _ = h.join();
    }
}

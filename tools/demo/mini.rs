// A few threads under a tiny deterministic scheduler: one runs at a time, in
// order of priority; a thread loses its priority at chosen points. Stands in
// for the operating system behind thingbuf's `thingbuf_sim` seam.
#![allow(dead_code)]
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Default)]
struct S {
    cur: usize,
    order: Vec<usize>,
    parked: Vec<bool>,
    until: Vec<Option<u64>>,
    token: Vec<bool>,
    done: Vec<bool>,
    count: Vec<usize>,
    spins: usize,
    stalls: Vec<(usize, usize)>,
    locks: HashMap<u64, usize>,
    next_id: u64,
    now: u64,
    what: String,
}
static G: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
std::thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });

fn pick(s: &mut S) {
    loop {
        if s.done.iter().all(|d| *d) {
            s.cur = usize::MAX;
            return;
        }
        for &t in &s.order {
            if !s.done[t] && !s.parked[t] {
                s.cur = t;
                return;
            }
        }
        match (0..s.done.len()).filter(|t| !s.done[*t]).filter_map(|t| s.until[t].map(|u| (u, t))).min() {
            Some((u, t)) => {
                s.now = s.now.max(u);
                s.until[t] = None;
                s.parked[t] = false;
            }
            None => {
                println!("FAIL: every thread that is left waits forever ({}; stalls {:?})", s.what, s.stalls);
                std::process::exit(1);
            }
        }
    }
}
fn demote(s: &mut S, t: usize) {
    s.order.retain(|x| *x != t);
    s.order.push(t);
}
fn wait_turn(me: usize) {
    let mut g = G.lock().unwrap();
    while g.as_ref().unwrap().cur != me {
        g = CV.wait(g).unwrap();
    }
}
fn with<R>(f: impl FnOnce(&mut S, usize) -> R) -> Option<R> {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return None;
    }
    let (r, same) = {
        let mut g = G.lock().unwrap();
        let s = g.as_mut().unwrap();
        let r = f(s, me);
        (r, s.cur == me)
    };
    if !same {
        CV.notify_all();
        wait_turn(me);
    }
    Some(r)
}
pub fn point(kind: u8) {
    with(|s, me| {
        s.now += 20;
        s.count[me] += 1;
        if s.stalls.contains(&(me, s.count[me])) {
            demote(s, me);
        }
        s.spins = if kind == 0 || kind == 3 { s.spins } else { s.spins + 1 };
        if s.spins > 60 {
            s.spins = 0;
            demote(s, me);
        }
        pick(s);
    });
}
/// Runs the threads; thread t loses its priority at its n-th step for each
/// (t, n) in `stalls`. Returns the number of steps of each thread.
pub fn run(what: &str, stalls: &[(usize, usize)], threads: Vec<Box<dyn FnOnce() + Send>>) -> Vec<usize> {
    let n = threads.len();
    *G.lock().unwrap() = Some(S {
        order: (0..n).collect(),
        parked: vec![false; n],
        until: vec![None; n],
        token: vec![false; n],
        done: vec![false; n],
        count: vec![0; n],
        stalls: stalls.to_vec(),
        what: what.to_string(),
        ..S::default()
    });
    let hs: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            std::thread::spawn(move || {
                ME.with(|m| m.set(i));
                wait_turn(i);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                ME.with(|m| m.set(usize::MAX));
                let mut g = G.lock().unwrap();
                let s = g.as_mut().unwrap();
                s.done[i] = true;
                s.parked[i] = false;
                pick(s);
                drop(g);
                CV.notify_all();
                if r.is_err() {
                    println!("FAIL: thread {} panicked", i);
                    std::process::exit(1);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let g = G.lock().unwrap();
    g.as_ref().unwrap().count.clone()
}
/// For each step k of thread 0: stall it there while the others run.
pub fn each_stall(what: &str, mut threads: impl FnMut() -> (Vec<Box<dyn FnOnce() + Send>>, Box<dyn FnOnce()>)) {
    let mut k = 1;
    loop {
        let (ts, after) = threads();
        let c = run(what, &[(0, k)], ts);
        after();
        if c[0] < k {
            break;
        }
        k += 1;
    }
}
pub fn fail(msg: &str) -> ! {
    let g = G.lock().unwrap();
    println!("FAIL: {} (stalls {:?})", msg, g.as_ref().map(|s| s.stalls.clone()));
    std::process::exit(1);
}

struct W(u64);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        unpark(self.0)
    }
}
pub fn waker() -> Waker {
    Arc::new(W(thread())).into()
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker();
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return x;
        }
        park(None);
    }
}
pub fn poll_once<F: Future>(f: Pin<&mut F>, w: &Waker) -> Poll<F::Output> {
    f.poll(&mut Context::from_waker(w))
}
fn thread() -> u64 {
    ME.with(|m| m.get()) as u64
}
fn unpark(t: u64) {
    with(|s, _| {
        let t = t as usize;
        if t < s.token.len() {
            if s.parked[t] {
                s.parked[t] = false;
                s.until[t] = None;
            } else {
                s.token[t] = true;
            }
        }
    });
}
pub fn park(timeout: Option<u64>) {
    let r = with(|s, me| {
        if s.token[me] {
            s.token[me] = false;
        } else {
            s.parked[me] = true;
            s.until[me] = timeout.map(|t| s.now.saturating_add(t));
            pick(s);
        }
    });
    assert!(r.is_some(), "parked outside of the simulation");
}

#[no_mangle]
fn __tbsim_point(kind: u8) {
    point(kind)
}
#[no_mangle]
fn __tbsim_load(_: &AtomicU64, cur: u64, _: Ordering) -> u64 {
    cur
}
#[no_mangle]
fn __tbsim_store(_: &AtomicU64, _: u64, _: u64, _: Ordering) {}
#[no_mangle]
fn __tbsim_rmw(_: &AtomicU64, _: u64, _: u64, _: Ordering) {}
#[no_mangle]
fn __tbsim_cas_fail(_: &AtomicU64, cur: u64, _: u64, _: Ordering) -> u64 {
    cur
}
/// So many attempts of weak exchanges fail for no reason.
pub static SPURIOUS: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
fn __tbsim_spurious() -> bool {
    SPURIOUS.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1)).is_ok()
}
#[no_mangle]
fn __tbsim_fence(_: Ordering) {}
#[no_mangle]
fn __tbsim_cell(_: &AtomicU64, _: bool) {}
#[no_mangle]
fn __tbsim_dead(_: &AtomicU64) {}
/// The next push puts the queue's positions so many laps before their overflow.
pub static PRESET: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
fn __tbsim_preset() -> Option<usize> {
    match PRESET.swap(0, Ordering::SeqCst) {
        0 => None,
        n => Some(n as usize),
    }
}
#[no_mangle]
fn __tbsim_lock(id: &AtomicU64, wait: bool) -> bool {
    loop {
        point(0);
        let got = with(|s, me| {
            let mut i = id.load(Ordering::Relaxed);
            if i == 0 {
                s.next_id += 1;
                i = s.next_id + (1 << 32);
                id.store(i, Ordering::Relaxed);
            }
            if s.locks.contains_key(&i) {
                if wait {
                    demote(s, me);
                    pick(s);
                }
                false
            } else {
                s.locks.insert(i, me);
                true
            }
        })
        .unwrap_or(true);
        if got || !wait {
            return got;
        }
    }
}
#[no_mangle]
fn __tbsim_unlock(id: &AtomicU64) {
    with(|s, _| {
        s.locks.remove(&id.load(Ordering::Relaxed));
    });
    point(0);
}
#[no_mangle]
fn __tbsim_arc_clone(_: &AtomicU64) {}
#[no_mangle]
fn __tbsim_arc_drop(_: &AtomicU64, _: bool) {}
#[no_mangle]
fn __tbsim_thread() -> u64 {
    thread()
}
#[no_mangle]
fn __tbsim_park(t: Option<u64>) {
    park(t)
}
#[no_mangle]
fn __tbsim_unpark(t: u64) {
    unpark(t);
    point(0);
}
#[no_mangle]
fn __tbsim_now() -> u64 {
    with(|s, _| s.now).unwrap_or(0)
}
#[no_mangle]
fn __tbsim_panicking() -> bool {
    std::thread::panicking()
}

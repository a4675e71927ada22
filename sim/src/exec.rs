//! The simulated users: they drive the real library through its public API and
//! record what they did and saw.
use crate::arena;
use crate::elem::{reg, words, Elem, Injected, OpKind, Rec};
use crate::oracle::{self, hist, Err as E, Fail, Handle, Pop, Push, Query, Waits};
use crate::plan::*;
use crate::rt::{rt, Block, Call, Ev, TState, View, Violation, NT, PT_USER};
use std::fmt::Write;
use std::future::Future;
use std::ops::DerefMut;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use thingbuf::mpsc::errors::{TryRecvError, TrySendError};
use thingbuf::{mpsc, StaticThingBuf, ThingBuf};

// ---- library calls ----

static mut LAST_PANIC: Option<String> = None;

#[allow(static_mut_refs)]
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        arena::untracked(|| {
            let m = format!("{}", info).replace('\n', " | ");
            if std::env::var_os("TBSIM_PANIC").is_some() {
                eprintln!("{}\n{}", m, std::backtrace::Backtrace::force_capture());
            }
            unsafe { LAST_PANIC = Some(m) };
        })
    }));
}

#[allow(static_mut_refs)]
pub fn last_panic() -> String {
    unsafe { LAST_PANIC.take() }.unwrap_or_else(|| "unknown panic".into())
}

/// Runs one call into the library.
pub fn call<R>(class: Call, op: OpKind, f: impl FnOnce() -> R) -> R {
    let c = rt().cur;
    let prev_op = reg().op[c];
    reg().ops += 1;
    reg().op[c] = (op, reg().ops);
    let prev_call = rt().th[c].call;
    if prev_call == Call::Outside {
        rt().th[c].call_start = rt().step;
    }
    rt().enter_call(class);
    let res = {
        let _g = arena::Guard::set(true, true);
        catch_unwind(AssertUnwindSafe(f))
    };
    rt().leave_call();
    rt().th[c].call = prev_call;
    reg().op[c] = prev_op;
    match res {
        Ok(v) => v,
        Err(p) => {
            if !p.is::<Injected>() {
                let m = last_panic();
                rt().fatal("panic", format!("the library panicked: {}", m));
            }
            resume_unwind(p)
        }
    }
}

pub fn inject_panic() -> ! {
    let r = rt();
    let c = r.cur;
    r.th[c].panicking = true;
    r.logf(|| "fault: user code panics".into());
    // what the panic machinery itself allocates is not the library's doing
    arena::st().count = false;
    let p = arena::untracked(|| Box::new(Injected));
    resume_unwind(p)
}

fn ev() -> Ev {
    rt().ev()
}

/// Scheduling point before an operation, then its start event.
fn inv() -> Ev {
    rt().boundary();
    rt().ev()
}

fn log(f: impl FnOnce() -> String) {
    if rt().log.is_some() {
        arena::untracked(|| rt().logf(f));
    }
}

// ---- wakers ----

const VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);

fn w_data(t: usize, gen: u32) -> *const () {
    ((gen as usize) << 8 | t << 1 | 1) as *const ()
}
unsafe fn w_clone(d: *const ()) -> RawWaker {
    let t = (d as usize & 0xff) >> 1;
    if wc().clone_panic[t] && t == rt().cur && arena::untracked(|| rt().decide_pub(|g| g.chance(600) as u8)) == 1 {
        wc().clone_panic[t] = false;
        rt().c.clone_panics += 1;
        inject_panic();
    }
    let _g = arena::Guard::set(false, false);
    run_spare();
    rt().wakers += 1;
    RawWaker::new(d, &VT)
}
unsafe fn w_wake(d: *const ()) {
    w_wake_ref(d);
    w_drop(d);
}
unsafe fn w_wake_ref(d: *const ()) {
    let d = d as usize;
    let _g = arena::Guard::set(false, false);
    let (t, gen) = ((d & 0xff) >> 1, (d >> 8) as u32);
    if !run_inline(t, gen) {
        rt().task_wake(t, gen);
    }
    run_spare();
}
unsafe fn w_drop(_: *const ()) {
    rt().wakers -= 1;
    let _g = arena::Guard::set(false, false);
    run_spare();
}

// ---- code run by wakers ----

/// What the wakers of a run may do besides waking a sleeping task.
struct WakerCode {
    /// Tasks whose executor polls them at once, inside `wake`.
    inline: [Option<*mut dyn FnMut() -> bool>; NT],
    /// The task is being polled by another thread.
    busy: [bool; NT],
    /// ... and its own thread waits for that to end.
    want: [bool; NT],
    /// Things owned by some task, used or dropped by the next waker that runs.
    spares: Vec<Spare>,
    /// Woken before they could be put there.
    early: Vec<usize>,
    ids: usize,
    /// The task's waker panics when it is cloned.
    clone_panic: [bool; NT],
}

struct Spare {
    id: usize,
    view: View,
    run: Box<dyn FnOnce(bool)>,
}

static mut WAKER_CODE: WakerCode =
    WakerCode { inline: [None; NT], busy: [false; NT], want: [false; NT], spares: Vec::new(), early: Vec::new(), ids: 0, clone_panic: [false; NT] };

#[allow(static_mut_refs)]
fn wc() -> &'static mut WakerCode {
    unsafe { &mut WAKER_CODE }
}

fn reset_waker_code() {
    let w = wc();
    w.inline = [None; NT];
    w.busy = [false; NT];
    w.want = [false; NT];
    // never run: whatever an aborted run left behind is leaked with its stacks
    for s in w.spares.drain(..) {
        std::mem::forget(s.run);
    }
    w.early.clear();
    w.ids = 0;
    w.clone_panic = [false; NT];
}

/// An executor that polls the woken task inside `wake`.
fn run_inline(t: usize, gen: u32) -> bool {
    let r = rt();
    if t >= r.th.len() || t == r.cur || r.th[t].wgen != gen || wc().busy[t] {
        return false;
    }
    let Some(p) = wc().inline[t] else { return false };
    if r.th[t].state != TState::Blocked(Block::Task) || r.decide_pub(|g| g.chance(700) as u8) != 1 {
        return false;
    }
    r.c.inline_polls += 1;
    r.logf(|| format!("wake T{}: its executor polls it at once", t));
    wc().busy[t] = true;
    r.join_view(t);
    let ready = loop {
        rt().th[t].woken = false;
        if unsafe { (*p)() } {
            break true;
        }
        if !rt().th[t].woken {
            break false;
        }
    };
    if ready {
        wc().inline[t] = None;
    }
    wc().busy[t] = false;
    // executors order the polls of a task
    let c = rt().cur;
    let v = rt().th[c].view.clone();
    rt().th[t].view.join(&v);
    if ready || std::mem::take(&mut wc().want[t]) {
        let gen = rt().th[t].wgen;
        rt().task_wake(t, gen);
    }
    true
}

/// Runs, inside a waker called by the library, code that uses the channel.
fn run_spare() {
    let r = rt();
    if wc().spares.is_empty() || r.th[r.cur].call == Call::Outside || r.abort {
        return;
    }
    if r.decide_pub(|g| g.chance(500) as u8) == 1 {
        let s = wc().spares.remove(0);
        use_spare(s);
    }
}

fn use_spare(s: Spare) {
    let r = rt();
    r.c.reentrant_wakes += 1;
    r.logf(|| "fault: a waker uses the channel".into());
    let c = r.cur;
    r.th[c].view.join(&s.view);
    (s.run)(true);
}

/// Registers something for the wakers to use; taken back when dropped.
struct SpareGuard(usize);

impl Drop for SpareGuard {
    fn drop(&mut self) {
        if let Some(i) = wc().spares.iter().position(|s| s.id == self.0) {
            let s = wc().spares.remove(i);
            (s.run)(false);
        }
    }
}

const SVT: RawWakerVTable = RawWakerVTable::new(s_clone, s_wake, s_wake_ref, s_drop);
unsafe fn s_clone(d: *const ()) -> RawWaker {
    rt().wakers += 1;
    RawWaker::new(d, &SVT)
}
unsafe fn s_wake(d: *const ()) {
    s_wake_ref(d);
    s_drop(d);
}
unsafe fn s_wake_ref(d: *const ()) {
    let _g = arena::Guard::set(false, false);
    rt().point(PT_USER);
    let id = d as usize >> 1;
    if let Some(i) = wc().spares.iter().position(|s| s.id == id) {
        let s = wc().spares.remove(i);
        use_spare(s);
    } else {
        wc().early.push(id);
    }
}
unsafe fn s_drop(_: *const ()) {
    rt().wakers -= 1;
}

fn mk_waker(t: usize, gen: u32) -> Waker {
    rt().wakers += 1;
    unsafe { Waker::from_raw(RawWaker::new(w_data(t, gen), &VT)) }
}

struct Fut<F: ?Sized>(Option<Pin<Box<F>>>, OpKind);
impl<F: ?Sized> Drop for Fut<F> {
    fn drop(&mut self) {
        let f = self.0.take();
        call(Call::MayLock, self.1, || drop(f));
    }
}

#[derive(Clone, Copy)]
pub struct Wait {
    pub mode: u8,
    pub p: u8,
    pub waker: bool,
    pub inline: bool,
    pub clone_panic: bool,
    pub pair: bool,
}

/// Makes a second future for the same thing.
type Companion<'a, O> = Option<&'a dyn Fn() -> Pin<Box<dyn Future<Output = O>>>>;

impl Wait {
    fn of(op: &Op) -> Wait {
        Wait { mode: op.w, p: op.p, waker: op.f & F_WAKER != 0, inline: op.f & F_INLINE != 0, clone_panic: op.f & F_CLONE != 0, pair: op.f & F_PAIR != 0 }
    }
    fn ns(&self) -> u64 {
        DUR[self.p as usize % DUR.len()]
    }
    /// Would this wait only end if others make progress?
    fn forever(&self) -> bool {
        self.mode == W_PLAIN || self.mode == W_POLLS && self.p > 1 || self.mode != W_POLLS && self.mode != W_UNPOLLED && self.p >= DUR_FOREVER
    }
}

/// Polls a future as a task of its own; None if it was abandoned.
fn drive<F: Future>(f: F, w: Wait, who: Waits, op: OpKind) -> Option<F::Output> {
    drive_with(f, w, who, op, None)
}

/// The same; the task may also poll, and drop, a second future of its own.
fn drive_with<F: Future>(f: F, w: Wait, who: Waits, op: OpKind, second: Companion<F::Output>) -> Option<F::Output> {
    let t = rt().cur;
    let boxed = arena::tracked(false, || Box::pin(f));
    let mut fut = Fut(Some(boxed), op);
    if w.mode == W_UNPOLLED {
        rt().c.cancelled_unpolled += 1;
        log(|| "abandon the future before its first poll".into());
        return None;
    }
    let deadline = match w.mode {
        W_TIMED | W_AFTER_WAKE if w.p < DUR_FOREVER => Some(rt().now + w.ns()),
        _ => None,
    };
    let mut polls = 0;
    struct InLine;
    impl Drop for InLine {
        fn drop(&mut self) {
            rt().line_leave();
        }
    }
    let _line = InLine;
    if who == Waits::Tx && !w.inline {
        rt().line_join();
    }
    loop {
        if w.waker && polls > 0 {
            rt().th[t].wgen += 1;
            rt().c.waker_changes += 1;
        }
        rt().th[t].woken = false;
        rt().line_look();
        let waker = mk_waker(t, rt().th[t].wgen);
        // 1: before the other, 2: after it, 3: after it, and kept until it wakes
        let how = match second {
            Some(_) if w.pair => rt().decide_pub(|g| g.below(4) as u8),
            _ => 0,
        };
        let mut other = None;
        if how == 1 {
            if let Some(v) = poll_second(&mut other, second, &waker, op) {
                drop(waker);
                return Some(v);
            }
        }
        wc().clone_panic[t] = w.clone_panic && cfg!(feature = "std");
        let res = survive(w.clone_panic, || {
            call(Call::Waiting, op, || {
                fut.0.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&waker))
            })
        });
        wc().clone_panic[t] = false;
        let Some(res) = res else {
            drop(waker);
            log(|| "abandon the future whose poll panicked".into());
            return None;
        };
        match res {
            Poll::Ready(v) => return Some(v),
            Poll::Pending => {}
        }
        if how >= 2 {
            if let Some(v) = poll_second(&mut other, second, &waker, op) {
                drop(waker);
                return Some(v);
            }
        }
        drop(waker);
        if how != 3 && other.is_some() {
            log(|| "abandon the task's second future".into());
            other = None;
        }
        polls += 1;
        if w.mode == W_POLLS && polls >= w.p.max(1) {
            rt().c.cancelled_waiting += 1;
            log(|| "abandon the pending future".into());
            return None;
        }
        rt().line_sleep();
        hist().waits[t] = Some(who);
        let mut early = None;
        let mut poll_now = || {
            let waker = mk_waker(t, rt().th[t].wgen);
            let f = fut.0.as_mut().unwrap().as_mut();
            let res = call(Call::Waiting, op, || f.poll(&mut Context::from_waker(&waker)));
            drop(waker);
            match res {
                Poll::Ready(v) => {
                    early = Some(v);
                    true
                }
                Poll::Pending => false,
            }
        };
        if w.inline {
            let p: &mut dyn FnMut() -> bool = &mut poll_now;
            wc().inline[t] = Some(unsafe { std::mem::transmute::<*mut (dyn FnMut() -> bool + '_), *mut (dyn FnMut() -> bool + 'static)>(p) });
        }
        let woken = rt().task_wait(deadline);
        wc().inline[t] = None;
        while wc().busy[t] {
            wc().want[t] = true;
            rt().task_wait(None);
        }
        hist().waits[t] = None;
        if early.is_some() {
            return early;
        }
        if woken && w.mode == W_AFTER_WAKE {
            rt().c.cancelled_after_wake += 1;
            log(|| "abandon the woken future".into());
            return None;
        }
        if let Some(d) = deadline {
            if rt().now >= d && !woken {
                rt().c.cancelled_waiting += 1;
                log(|| "abandon the pending future (timer)".into());
                return None;
            }
        }
    }
}

/// A task with two pending futures for the same thing, as `select!` makes them.
fn poll_second<O>(other: &mut Option<Fut<dyn Future<Output = O>>>, second: Companion<O>, waker: &Waker, op: OpKind) -> Option<O> {
    rt().c.second_futures += 1;
    log(|| "poll a second future".into());
    let f = arena::tracked(false, || second.unwrap()());
    let f = other.insert(Fut(Some(f), op));
    let f = f.0.as_mut().unwrap().as_mut();
    match call(Call::Waiting, op, || f.poll(&mut Context::from_waker(waker))) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// Formats something of the library's, without allocating.
fn show(x: &dyn std::fmt::Debug) {
    struct Sink(usize);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    call(Call::NonWaiting, OpKind::User, || {
        let _ = std::fmt::write(&mut Sink(0), format_args!("{:?}", x));
    });
}

// ---- the API, for every flavour ----

pub trait MsgRef: DerefMut<Target = Elem> + Write + std::fmt::Display + std::fmt::Debug {}
impl<R: DerefMut<Target = Elem> + Write + std::fmt::Display + std::fmt::Debug> MsgRef for R {}

pub trait TxApi: Sized + std::fmt::Debug + 'static {
    type Ref: MsgRef + 'static;
    fn try_send(&'static self, v: Elem) -> Result<(), (E, Elem)>;
    fn try_send_ref(&'static self) -> Result<Self::Ref, E>;
    fn send(&'static self, v: Elem, w: Wait) -> Result<(), (E, Option<Elem>)>;
    fn send_ref(&'static self, w: Wait) -> Result<Self::Ref, E>;
    fn dup(&self) -> Self;
    /// A future that waits for a send reference, if the flavour has one.
    fn future(&'static self) -> Option<PendingRef<Self::Ref>>;
}
type PendingRef<R> = Pin<Box<dyn Future<Output = Result<R, E>>>>;

pub trait RxApi: Sized + std::fmt::Debug + 'static {
    type Ref: MsgRef + 'static;
    fn try_recv(&'static self) -> Result<Elem, E>;
    fn try_recv_ref(&'static self) -> Result<Self::Ref, E>;
    fn recv(&'static self, w: Wait) -> Result<Elem, E>;
    fn recv_ref(&'static self, w: Wait) -> Result<Self::Ref, E>;
    fn poll(&'static self, w: Wait) -> Result<Elem, E>;
    fn poll_ref(&'static self, w: Wait) -> Result<Self::Ref, E>;
    fn next(&'static self) -> Result<Self::Ref, E>;
    fn is_closed(&'static self) -> bool;
}

fn try_send_err<T>(e: TrySendError<T>) -> (E, T) {
    let (k, ok) = match &e {
        TrySendError::Full(_) => (E::Full, e.is_full() && !e.is_closed()),
        TrySendError::Closed(_) => (E::Closed, !e.is_full() && e.is_closed()),
        _ => (E::Full, false),
    };
    if !ok {
        rt().violation(
            "error-class",
            format!("TrySendError for {:?} says is_full={} is_closed={}", k, e.is_full(), e.is_closed()),
        );
    }
    (k, e.into_inner())
}

fn try_recv_err(e: TryRecvError) -> E {
    match e {
        TryRecvError::Closed => E::Closed,
        _ => E::Empty,
    }
}

macro_rules! tx_common {
    () => {
        fn try_send(&'static self, v: Elem) -> Result<(), (E, Elem)> {
            call(Call::NonWaiting, OpKind::PushVal, || self.try_send(v)).map_err(try_send_err)
        }
        fn try_send_ref(&'static self) -> Result<Self::Ref, E> {
            call(Call::NonWaiting, OpKind::PushRef, || self.try_send_ref()).map_err(|e| try_send_err(e).0)
        }
        fn dup(&self) -> Self {
            call(Call::MayLock, OpKind::User, || self.clone())
        }
    };
}
macro_rules! rx_common {
    () => {
        fn try_recv(&'static self) -> Result<Elem, E> {
            call(Call::MayLock, OpKind::PopVal, || self.try_recv()).map_err(try_recv_err)
        }
        fn try_recv_ref(&'static self) -> Result<Self::Ref, E> {
            call(Call::NonWaiting, OpKind::PopRef, || self.try_recv_ref()).map_err(try_recv_err)
        }
        fn is_closed(&'static self) -> bool {
            call(Call::NonWaiting, OpKind::User, || self.is_closed())
        }
    };
}

macro_rules! async_tx {
    ($t:ty) => {
        impl TxApi for $t {
            type Ref = mpsc::SendRef<'static, Elem>;
            tx_common!();
            fn future(&'static self) -> Option<PendingRef<Self::Ref>> {
                Some(Box::pin(async move { self.send_ref().await.map_err(|_| E::Closed) }))
            }
            fn send(&'static self, v: Elem, w: Wait) -> Result<(), (E, Option<Elem>)> {
                match drive(self.send(v), w, Waits::Tx, OpKind::PushVal) {
                    None => Err((E::Cancelled, None)),
                    Some(Ok(())) => Ok(()),
                    Some(Err(e)) => Err((E::Closed, Some(e.into_inner()))),
                }
            }
            fn send_ref(&'static self, w: Wait) -> Result<Self::Ref, E> {
                match drive(self.send_ref(), w, Waits::Tx, OpKind::PushRef) {
                    None => Err(E::Cancelled),
                    Some(Ok(r)) => Ok(r),
                    Some(Err(_)) => Err(E::Closed),
                }
            }
        }
    };
}
async_tx!(mpsc::Sender<Elem>);
async_tx!(mpsc::Sender<Elem, Rec>);
async_tx!(mpsc::Sender<Elem, Arc<Rec>>);
async_tx!(mpsc::StaticSender<Elem>);

macro_rules! async_rx {
    ($t:ty) => {
        impl RxApi for $t {
            type Ref = mpsc::RecvRef<'static, Elem>;
            rx_common!();
            fn recv(&'static self, w: Wait) -> Result<Elem, E> {
                match drive_with(self.recv(), w, Waits::Rx, OpKind::PopVal, Some(&|| Box::pin(self.recv()))) {
                    None => Err(E::Cancelled),
                    Some(v) => v.ok_or(E::Closed),
                }
            }
            fn recv_ref(&'static self, w: Wait) -> Result<Self::Ref, E> {
                match drive_with(self.recv_ref(), w, Waits::Rx, OpKind::PopRef, Some(&|| Box::pin(self.recv_ref()))) {
                    None => Err(E::Cancelled),
                    Some(v) => v.ok_or(E::Closed),
                }
            }
            fn poll(&'static self, w: Wait) -> Result<Elem, E> {
                if w.mode != W_UNPOLLED {
                    let f = std::future::poll_fn(move |cx| self.poll_recv(cx));
                    return match drive(f, w, Waits::Rx, OpKind::PopVal) {
                        None => Err(E::Cancelled),
                        Some(v) => v.ok_or(E::Closed),
                    };
                }
                let waker = poll_waker(w);
                match call(Call::Waiting, OpKind::PopVal, || self.poll_recv(&mut Context::from_waker(&waker))) {
                    Poll::Pending => Err(E::Empty),
                    Poll::Ready(v) => v.ok_or(E::Closed),
                }
            }
            fn poll_ref(&'static self, w: Wait) -> Result<Self::Ref, E> {
                if w.mode != W_UNPOLLED {
                    let f = std::future::poll_fn(move |cx| self.poll_recv_ref(cx));
                    return match drive(f, w, Waits::Rx, OpKind::PopRef) {
                        None => Err(E::Cancelled),
                        Some(v) => v.ok_or(E::Closed),
                    };
                }
                let waker = poll_waker(w);
                match call(Call::Waiting, OpKind::PopRef, || self.poll_recv_ref(&mut Context::from_waker(&waker))) {
                    Poll::Pending => Err(E::Empty),
                    Poll::Ready(v) => v.ok_or(E::Closed),
                }
            }
            fn next(&'static self) -> Result<Self::Ref, E> {
                RxApi::recv_ref(self, Wait { mode: W_PLAIN, p: 0, waker: false, inline: false, clone_panic: false, pair: false })
            }
        }
    };
}
async_rx!(mpsc::Receiver<Elem>);
async_rx!(mpsc::Receiver<Elem, Rec>);
async_rx!(mpsc::Receiver<Elem, Arc<Rec>>);
async_rx!(mpsc::StaticReceiver<Elem>);

fn poll_waker(w: Wait) -> Waker {
    let t = rt().cur;
    if w.waker {
        rt().th[t].wgen += 1;
        rt().c.waker_changes += 1;
    }
    mk_waker(t, rt().th[t].wgen)
}

#[cfg(feature = "std")]
mod blocking_api {
    use super::*;
    use mpsc::blocking;
    use mpsc::errors::{RecvTimeoutError, SendTimeoutError};
    use std::time::Duration;

    fn dur(ns: u64) -> Duration {
        if ns == u64::MAX {
            Duration::MAX
        } else {
            Duration::from_nanos(ns)
        }
    }

    /// How a wait specification maps to the blocking API.
    fn timed(w: Wait) -> Option<u64> {
        match w.mode {
            W_PLAIN => None,
            W_UNPOLLED => Some(0),
            W_POLLS => Some(DUR[w.p as usize % 4]),
            _ => Some(w.ns()),
        }
    }

    fn waiting<R>(who: Waits, op: OpKind, ns: Option<u64>, f: impl FnOnce() -> R) -> R {
        let t = rt().cur;
        hist().waits[t] = Some(who);
        if who == Waits::Tx {
            rt().line_join();
        }
        if let Some(ns) = ns {
            rt().begin_timed(ns);
        }
        let r = call(Call::Waiting, op, f);
        rt().end_timed();
        rt().line_leave();
        hist().waits[t] = None;
        r
    }

    fn send_timeout_err<T>(e: SendTimeoutError<T>) -> (E, T) {
        let (k, ok) = match &e {
            SendTimeoutError::Timeout(_) => (E::Timeout, e.is_timeout() && !e.is_closed()),
            SendTimeoutError::Closed(_) => (E::Closed, !e.is_timeout() && e.is_closed()),
            _ => (E::Timeout, false),
        };
        if !ok {
            rt().violation(
                "error-class",
                format!("SendTimeoutError for {:?} says is_timeout={} is_closed={}", k, e.is_timeout(), e.is_closed()),
            );
        }
        (k, e.into_inner())
    }

    fn recv_timeout_err(e: RecvTimeoutError) -> E {
        match e {
            RecvTimeoutError::Timeout => E::Timeout,
            _ => E::Closed,
        }
    }

    macro_rules! block_tx {
        ($t:ty) => {
            impl TxApi for $t {
                type Ref = blocking::SendRef<'static, Elem>;
                tx_common!();
                fn future(&'static self) -> Option<PendingRef<Self::Ref>> {
                    None
                }
                fn send(&'static self, v: Elem, w: Wait) -> Result<(), (E, Option<Elem>)> {
                    match timed(w) {
                        None => waiting(Waits::Tx, OpKind::PushVal, None, || self.send(v))
                            .map_err(|e| (E::Closed, Some(e.into_inner()))),
                        Some(ns) => waiting(Waits::Tx, OpKind::PushVal, Some(ns), || self.send_timeout(v, dur(ns)))
                            .map_err(|e| {
                                let (k, v) = send_timeout_err(e);
                                (k, Some(v))
                            }),
                    }
                }
                fn send_ref(&'static self, w: Wait) -> Result<Self::Ref, E> {
                    match timed(w) {
                        None => waiting(Waits::Tx, OpKind::PushRef, None, || self.send_ref()).map_err(|_| E::Closed),
                        Some(ns) => waiting(Waits::Tx, OpKind::PushRef, Some(ns), || self.send_ref_timeout(dur(ns)))
                            .map_err(|e| send_timeout_err(e).0),
                    }
                }
            }
        };
    }
    block_tx!(blocking::Sender<Elem>);
    block_tx!(blocking::Sender<Elem, Rec>);
    block_tx!(blocking::Sender<Elem, Arc<Rec>>);
    block_tx!(blocking::StaticSender<Elem>);

    macro_rules! block_rx {
        ($t:ty) => {
            impl RxApi for $t {
                type Ref = blocking::RecvRef<'static, Elem>;
                rx_common!();
                fn recv(&'static self, w: Wait) -> Result<Elem, E> {
                    match timed(w) {
                        None => waiting(Waits::Rx, OpKind::PopVal, None, || self.recv()).ok_or(E::Closed),
                        Some(ns) => waiting(Waits::Rx, OpKind::PopVal, Some(ns), || self.recv_timeout(dur(ns)))
                            .map_err(recv_timeout_err),
                    }
                }
                fn recv_ref(&'static self, w: Wait) -> Result<Self::Ref, E> {
                    match timed(w) {
                        None => waiting(Waits::Rx, OpKind::PopRef, None, || self.recv_ref()).ok_or(E::Closed),
                        Some(ns) => waiting(Waits::Rx, OpKind::PopRef, Some(ns), || self.recv_ref_timeout(dur(ns)))
                            .map_err(recv_timeout_err),
                    }
                }
                fn poll(&'static self, _: Wait) -> Result<Elem, E> {
                    RxApi::try_recv(self)
                }
                fn poll_ref(&'static self, _: Wait) -> Result<Self::Ref, E> {
                    RxApi::try_recv_ref(self)
                }
                fn next(&'static self) -> Result<Self::Ref, E> {
                    waiting(Waits::Rx, OpKind::PopRef, None, || {
                        let mut it = self;
                        Iterator::next(&mut it)
                    })
                    .ok_or(E::Closed)
                }
            }
        };
    }
    block_rx!(blocking::Receiver<Elem>);
    block_rx!(blocking::Receiver<Elem, Rec>);
    block_rx!(blocking::Receiver<Elem, Arc<Rec>>);
    block_rx!(blocking::StaticReceiver<Elem>);
}

/// The requested duration of a timed blocking operation.
fn timed_ns(blocking: bool, op: &Op) -> Option<u64> {
    if !blocking {
        return None;
    }
    match op.w {
        W_PLAIN => None,
        W_UNPOLLED => Some(0),
        W_POLLS => Some(DUR[op.p as usize % 4]),
        _ => Some(DUR[op.p as usize % DUR.len()]),
    }
}

// ---- references and handles with their history ----

struct G<R: DerefMut<Target = Elem>> {
    r: Option<R>,
    rec: usize,
    push: bool,
    addr: usize,
}

impl<R: DerefMut<Target = Elem>> Drop for G<R> {
    fn drop(&mut self) {
        let r = self.r.take();
        rt().boundary();
        reg().refs.remove(&self.addr);
        let e = ev();
        if self.push {
            hist().push[self.rec].rel_inv = Some(e);
        } else {
            hist().pop[self.rec].rel_inv = Some(e);
        }
        log(|| format!("release {} ref", if self.push { "send" } else { "receive" }));
        let k = if self.push { OpKind::PushRef } else { OpKind::PopRef };
        call(Call::MayLock, k, || drop(r));
        let e = ev();
        if self.push {
            hist().push[self.rec].rel_ret = Some(e);
        } else {
            hist().pop[self.rec].rel_ret = Some(e);
        }
    }
}

fn register_ref(addr: usize, push: bool) {
    let t = rt().cur;
    if let Some((o, _)) = reg().refs.insert(addr, (t, push)) {
        rt().fatal("alias", format!("threads {} and {} hold references to the same element", t, o));
    }
}

struct H<T> {
    h: Option<T>,
    rec: usize,
    tx: bool,
}

impl<T> H<T> {
    fn new(h: T, tx: bool) -> H<T> {
        let e = ev();
        let v = if tx { &mut hist().tx } else { &mut hist().rx };
        v.push(Handle { created: e, drop_inv: None, drop_ret: None });
        H { h: Some(h), rec: v.len() - 1, tx }
    }
    /// References obtained through the handle never outlive it (see `Drop` order
    /// of the states that own both).
    fn get(&self) -> &'static T {
        unsafe { &*(self.h.as_ref().unwrap() as *const T) }
    }
}

impl<T> Drop for H<T> {
    fn drop(&mut self) {
        let Some(h) = self.h.take() else { return };
        rt().boundary();
        let e = ev();
        log(|| format!("drop {}", if self.tx { "sender" } else { "receiver" }));
        let hs = if self.tx { &mut hist().tx } else { &mut hist().rx };
        hs[self.rec].drop_inv = Some(e);
        rt().c.handles_dropped += 1;
        call(Call::MayLock, OpKind::Teardown, || drop(h));
        let e = ev();
        let hs = if self.tx { &mut hist().tx } else { &mut hist().rx };
        hs[self.rec].drop_ret = Some(e);
    }
}

// ---- operations ----

fn new_push(byval: bool) -> usize {
    let e = inv();
    let h = hist();
    h.serial += 1;
    h.push.push(Push {
        serial: h.serial,
        tid: e.tid,
        byval,
        inv: e,
        claim: None,
        rel_inv: None,
        rel_ret: None,
        failed: None,
        partial: false,
    });
    h.push.len() - 1
}

/// When the calling thread last woke up in the call that began at `inv`.
fn woke_in(inv: Ev) -> Ev {
    let r = rt();
    r.th[r.cur].awake.filter(|a| a.step >= inv.step).unwrap_or(inv)
}

fn push_failed(k: usize, e: E, op: &Op, timed: Option<u64>) {
    let ret = ev();
    let h = hist();
    h.push[k].failed = Some(e);
    log(|| format!("{} -> {:?}", op_name(op.k), e));
    count_err(true, e);
    let inv = h.push[k].inv;
    let awake = woke_in(inv);
    h.fail.push(Fail { push: true, kind: e, inv, ret, timed, op: op.k, awake });
}

fn pop_failed(inv: Ev, e: E, op: &Op, timed: Option<u64>) {
    let ret = ev();
    log(|| format!("{} -> {:?}", op_name(op.k), e));
    count_err(false, e);
    let awake = woke_in(inv);
    hist().fail.push(Fail { push: false, kind: e, inv, ret, timed, op: op.k, awake });
}

fn count_err(push: bool, e: E) {
    let c = &mut rt().c;
    match e {
        E::Full => c.full_results += 1,
        E::Empty => c.empty_results += 1,
        E::Closed => c.closed_results += 1,
        E::Timeout => {
            if push {
                c.timeouts_send += 1
            } else {
                c.timeouts_recv += 1
            }
        }
        E::Cancelled => {}
    }
}

/// A by-value failure must hand back the original message.
fn check_returned(v: &Elem, serial: u64, inst: u64) {
    v.check_live("a failed send returned");
    if v.serial != serial || v.w != words(serial) || v.inst() != inst {
        rt().violation("value-lost", format!("a failed send of message {} returned something else", serial));
    }
}

fn push_val(op: &Op, timed: Option<u64>, f: impl FnOnce(Elem) -> Result<(), (E, Option<Elem>)>) -> Option<E> {
    let k = new_push(true);
    let s = hist().push[k].serial;
    let v = Elem::value(s);
    let inst = v.inst();
    log(|| format!("{} message {}", op_name(op.k), s));
    match f(v) {
        Ok(()) => {
            let e = ev();
            let p = &mut hist().push[k];
            p.claim = Some(e);
            p.rel_inv = Some(p.inv);
            p.rel_ret = Some(e);
            log(|| format!("{} message {} -> ok", op_name(op.k), s));
            None
        }
        Err((e, v)) => {
            push_failed(k, e, op, timed);
            if let Some(v) = v {
                check_returned(&v, s, inst);
            }
            Some(e)
        }
    }
}

/// Obtains a send reference and writes a message through it.
fn push_ref<R: MsgRef>(
    op: &Op,
    timed: Option<u64>,
    f: impl FnOnce() -> Result<R, E>,
) -> Result<G<R>, E> {
    let k = new_push(false);
    let s = hist().push[k].serial;
    log(|| format!("{} message {}", op_name(op.k), s));
    match f() {
        Err(e) => {
            push_failed(k, e, op, timed);
            Err(e)
        }
        Ok(r) => Ok(got_ref(k, op, r)),
    }
}

/// Writes the message of push `k` through its reference.
fn got_ref<R: MsgRef>(k: usize, op: &Op, mut r: R) -> G<R> {
    let s = hist().push[k].serial;
    let e = ev();
    hist().push[k].claim = Some(e);
    let addr = &*r as *const Elem as usize;
    let mut g = G { r: None, rec: k, push: true, addr };
    register_ref(addr, true);
    log(|| format!("{} message {} -> got a ref", op_name(op.k), s));
    fill(&mut *r, s, "a send reference");
    if op.f & F_SLOW != 0 {
        rt().boundary();
    }
    if op.f & F_PANIC != 0 {
        hist().push[k].partial = true;
        rt().c.panics_in_ref += 1;
        g.r = Some(r);
        inject_panic();
    }
    write_words(&mut r, s);
    g.r = Some(r);
    g
}

/// The second half of a message, through whichever interface of the reference.
fn write_words<R: MsgRef>(r: &mut R, s: u64) {
    let w = words(s);
    let ok = match s % 4 {
        1 => write!(r, "{:016x}{:016x}", w[0], w[1]).is_ok(),
        2 => w.iter().all(|w| (0..16).rev().all(|i| r.write_char(char::from_digit((w >> (4 * i)) as u32 & 15, 16).unwrap()).is_ok())),
        _ => {
            r.w = w;
            true
        }
    };
    if !ok {
        rt().violation("corrupt", format!("writing message {} through its reference failed", s));
    }
}

/// A reference shows the message behind it.
fn check_shown<R: MsgRef>(r: &R, s: u64) {
    if s % 4 != 3 {
        return;
    }
    struct Num(u64, u64);
    impl std::fmt::Write for Num {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() {
                match c.to_digit(10) {
                    Some(d) => self.0 = self.0.wrapping_mul(10).wrapping_add(d as u64),
                    None => self.1 += 1,
                }
            }
            Ok(())
        }
    }
    let (mut a, mut b) = (Num(0, 0), Num(0, 0));
    let _ = write!(a, "{}", r);
    let _ = write!(b, "{:?}", r);
    if a.0 != s || b.0 != s {
        rt().violation("corrupt", format!("a reference to message {} shows {} and {}", s, a.0, b.0));
    }
}

/// Checks a fresh element and writes the first half of a message.
fn fill(e: &mut Elem, s: u64, what: &'static str) {
    if !e.check_live(what) {
        return;
    }
    if !e.is_clean() {
        rt().violation("stale-element", format!("{} for message {} starts from old contents (message {})", what, s, e.serial));
    }
    e.serial = s;
}

/// Checks a received element against what was sent.
fn check_content(e: &Elem, first: u64) -> u64 {
    if !e.check_live("a received message") {
        return 0;
    }
    let s = e.serial;
    let want = hist().push.iter().find(|p| p.serial == s).map(|p| if p.partial { [0, 0] } else { words(s) });
    match want {
        Some(w) if w == e.w && first == s => {}
        Some(_) => rt().violation("corrupt", format!("message {} was received with different contents", s)),
        None => {}
    }
    s
}

fn new_pop(inv: Ev, got: Ev, serial: u64, byval: bool) -> usize {
    rt().c.messages += 1;
    let h = hist();
    if byval {
        h.byval_pops += 1;
    }
    h.pop.push(Pop {
        serial,
        tid: got.tid,
        byval,
        inv,
        got,
        rel_inv: if byval { Some(inv) } else { None },
        rel_ret: if byval { Some(got) } else { None },
    });
    h.pop.len() - 1
}

fn pop_val(op: &Op, timed: Option<u64>, f: impl FnOnce() -> Result<Elem, E>) -> Option<E> {
    let i = inv();
    log(|| op_name(op.k).to_string());
    match f() {
        Err(e) => {
            pop_failed(i, e, op, timed);
            Some(e)
        }
        Ok(v) => {
            let got = ev();
            let s = check_content(&v, v.serial);
            log(|| format!("{} -> message {}", op_name(op.k), s));
            new_pop(i, got, s, true);
            None
        }
    }
}

fn pop_ref<R: MsgRef>(
    op: &Op,
    timed: Option<u64>,
    f: impl FnOnce() -> Result<R, E>,
) -> Result<G<R>, E> {
    let i = inv();
    log(|| op_name(op.k).to_string());
    match f() {
        Err(e) => {
            pop_failed(i, e, op, timed);
            Err(e)
        }
        Ok(r) => {
            let got = ev();
            let addr = &*r as *const Elem as usize;
            let first = r.serial;
            let rec = new_pop(i, got, first, false);
            let mut g = G { r: None, rec, push: false, addr };
            register_ref(addr, false);
            if op.f & F_SLOW != 0 {
                rt().boundary();
            }
            check_content(&*r, first);
            check_shown(&r, first);
            log(|| format!("{} -> ref to message {}", op_name(op.k), first));
            g.r = Some(r);
            if op.f & F_PANIC != 0 {
                rt().c.panics_in_ref += 1;
                inject_panic();
            }
            Ok(g)
        }
    }
}

/// Runs an operation whose user code may panic; the user survives it.
fn survive<R>(panics: bool, f: impl FnOnce() -> R) -> Option<R> {
    if !panics {
        return Some(f());
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    let c = rt().cur;
    match r {
        Ok(v) => Some(v),
        Err(p) => {
            if !p.is::<Injected>() {
                let m = last_panic();
                rt().fatal("panic", m);
            }
            rt().th[c].panicking = false;
            None
        }
    }
}

fn release_one<R: DerefMut<Target = Elem>>(held: &mut Vec<G<R>>, p: u8) {
    if !held.is_empty() {
        let i = p as usize % held.len();
        drop(held.remove(i));
    }
}

fn release_all<R: DerefMut<Target = Elem>>(held: &mut Vec<G<R>>) {
    while !held.is_empty() {
        drop(held.remove(0));
    }
}

/// Nothing could ever be in a queue without places: it must not come to be.
fn zero_capacity(kind: u8) {
    use thingbuf::{mpsc, StaticThingBuf, ThingBuf};
    rt().boundary();
    let _g = arena::Guard::set(false, false);
    let made = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => drop(ThingBuf::<u32>::new(0)),
        1 => drop(mpsc::channel::<u32>(0)),
        2 => drop(StaticThingBuf::<u32, 0>::new()),
        3 => drop(mpsc::StaticChannel::<u32, 0>::new()),
        #[cfg(feature = "std")]
        4 => drop(mpsc::blocking::channel::<u32>(0)),
        #[cfg(feature = "std")]
        5 => drop(mpsc::blocking::StaticChannel::<u32, 0>::new()),
        _ => drop(ThingBuf::<u32>::new(0)),
    }));
    if made.is_ok() {
        rt().violation("zero-capacity", format!("a queue or channel (kind {}) without any capacity was constructed", kind));
    }
}

fn pause(op: &Op) {
    rt().boundary();
    rt().sleep(DUR[op.p as usize % 8]);
}

/// Body of a simulated thread: user code that may unwind with all it owns.
pub fn thread_body(f: impl FnOnce()) {
    let r = catch_unwind(AssertUnwindSafe(f));
    let c = rt().cur;
    match r {
        Ok(()) => {}
        Err(p) => {
            if !p.is::<Injected>() {
                let m = last_panic();
                rt().fatal("panic", m);
            }
            drop(p);
        }
    }
    rt().th[c].panicking = false;
}

struct TxState<T: TxApi> {
    // dropped in this order
    spare: Option<SpareGuard>,
    held: Vec<G<T::Ref>>,
    hs: Vec<Box<H<T>>>,
}

fn tx_op<T: TxApi>(st: &mut TxState<T>, op: &Op, blocking: bool) -> Option<E> {
    let w = Wait::of(op);
    if matches!(op.k, SEND | SEND_REF) && w.forever() {
        release_all(&mut st.held);
    }
    let h = st.hs.last().unwrap().get();
    let timed = if matches!(op.k, SEND | SEND_REF) { timed_ns(blocking, op) } else { None };
    let hold = op.f & F_HOLD != 0;
    match op.k {
        TRY_SEND => return push_val(op, None, |v| h.try_send(v).map_err(|(e, v)| (e, Some(v)))),
        SEND => return push_val(op, timed, |v| h.send(v, w)),
        TRY_SEND_REF | SEND_REF => {
            let r = survive(op.f & F_PANIC != 0, || {
                push_ref(op, timed, || if op.k == SEND_REF { h.send_ref(w) } else { h.try_send_ref() })
            });
            match r {
                Some(Ok(g)) => {
                    if hold && st.held.len() < 6 {
                        rt().c.refs_held += 1;
                        st.held.push(g);
                    }
                }
                Some(Err(e)) => return Some(e),
                None => {}
            }
        }
        CLONE => {
            if st.hs.len() < 4 {
                rt().boundary();
                rt().c.handles_cloned += 1;
                let d = h.dup();
                log(|| "clone sender".into());
                st.hs.push(Box::new(H::new(d, true)));
            }
        }
        DROP_HANDLE => {
            if st.hs.len() > 1 {
                release_all(&mut st.held);
                st.hs.pop();
            }
        }
        ZERO => zero_capacity(op.p),
        FMT => {
            rt().boundary();
            show(h);
            if let Some(g) = st.held.last() {
                show(&&**g.r.as_ref().unwrap());
            }
        }
        FILL => {
            let o = Op { k: if op.p & 1 == 0 { TRY_SEND } else { TRY_SEND_REF }, ..Op::default() };
            for _ in 0..2 * hist().cap {
                if tx_op(st, &o, blocking).is_some() {
                    break;
                }
            }
        }
        SPARE => {
            if st.spare.is_none() {
                st.spare = make_spare(h, op);
            }
        }
        FAN => {
            release_all(&mut st.held);
            fan(h, op);
        }
        RELEASE => release_one(&mut st.held, op.p),
        PAUSE => pause(op),
        PANIC => {
            rt().c.panics_with_handles += 1;
            inject_panic();
        }
        _ => {}
    }
    None
}

/// One task awaits many sends at once, perhaps giving up some of them.
fn fan<T: TxApi>(h: &'static T, op: &Op) {
    let t = rt().cur;
    let n = FANS[op.p as usize % FANS.len()];
    let o = Op { k: SEND_REF, ..Op::default() };
    let mut pending = vec![];
    for _ in 0..n {
        let Some(f) = h.future() else { return };
        let k = new_push(false);
        pending.push((k, Fut(Some(f), OpKind::PushRef)));
    }
    rt().c.fans += 1;
    let mut polls = 0;
    loop {
        if op.f & F_WAKER != 0 && polls > 0 {
            rt().th[t].wgen += 1;
            rt().c.waker_changes += 1;
        }
        rt().th[t].woken = false;
        let waker = mk_waker(t, rt().th[t].wgen);
        let mut i = 0;
        while i < pending.len() {
            let (k, f) = &mut pending[i];
            let fut = f.0.as_mut().unwrap().as_mut();
            match call(Call::Waiting, OpKind::PushRef, || fut.poll(&mut Context::from_waker(&waker))) {
                Poll::Pending => i += 1,
                Poll::Ready(res) => {
                    let k = *k;
                    match res {
                        Err(e) => push_failed(k, e, &o, None),
                        Ok(r) => drop(got_ref(k, &o, r)),
                    }
                    pending.remove(i);
                }
            }
        }
        drop(waker);
        polls += 1;
        if op.w != W_PLAIN && polls >= op.w && !pending.is_empty() {
            // give up all or one of them
            let n = pending.len();
            let which = rt().decide_pub(|g| g.below(n as u64 + 1) as u8) as usize;
            let gone: Vec<_> = if which == n { pending.drain(..).collect() } else { vec![pending.remove(which)] };
            for (k, f) in gone {
                rt().c.cancelled_waiting += 1;
                log(|| "abandon a pending future".into());
                drop(f);
                push_failed(k, E::Cancelled, &o, None);
            }
        }
        if pending.is_empty() {
            return;
        }
        hist().waits[t] = Some(Waits::Tx);
        rt().task_wait(None);
        hist().waits[t] = None;
    }
}

/// Hands a sender (and perhaps a pending send) to the wakers of this run.
fn make_spare<T: TxApi>(h: &'static T, op: &Op) -> Option<SpareGuard> {
    rt().boundary();
    let d = h.dup();
    log(|| "clone sender, for wakers to use".into());
    let d = Box::new(H::new(d, true));
    let dh = d.get();
    wc().ids += 1;
    let id = wc().ids;
    let mut pending = None;
    if op.p == 1 {
        let mut f = Fut(Some(dh.future()?), OpKind::PushRef);
        rt().wakers += 1;
        let waker = unsafe { Waker::from_raw(RawWaker::new((id << 1 | 1) as *const (), &SVT)) };
        let o = Op { k: SEND_REF, ..Op::default() };
        let got = push_ref(&o, None, || {
            let fut = f.0.as_mut().unwrap().as_mut();
            match call(Call::Waiting, OpKind::PushRef, || fut.poll(&mut Context::from_waker(&waker))) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(E::Cancelled),
            }
        });
        if let Err(E::Cancelled) = got {
            pending = Some(f);
        }
        drop(got);
        drop(waker);
    }
    let run: Box<dyn FnOnce(bool)> = Box::new(move |in_waker: bool| {
        // a future goes before the sender it borrows
        let had = pending.is_some();
        drop(pending);
        if in_waker && !had {
            let o = Op { k: TRY_SEND, ..Op::default() };
            push_val(&o, None, |v| d.get().try_send(v).map_err(|(e, v)| (e, Some(v))));
        }
        drop(d);
    });
    if wc().early.contains(&id) {
        run(false);
        return None;
    }
    let c = rt().cur;
    let view = rt().th[c].view.clone();
    wc().spares.push(Spare { id, view, run });
    Some(SpareGuard(id))
}

struct RxState<R: RxApi> {
    held: Vec<G<R::Ref>>,
    h: Box<H<R>>,
}

fn rx_op<R: RxApi>(st: &mut RxState<R>, op: &Op, blocking: bool) -> Option<E> {
    let w = Wait::of(op);
    if op.k == NEXT || matches!(op.k, RECV | RECV_REF | POLL | POLL_REF) && w.forever() {
        release_all(&mut st.held);
    }
    let h = st.h.get();
    let timed = if matches!(op.k, RECV | RECV_REF) { timed_ns(blocking, op) } else { None };
    match op.k {
        TRY_RECV => return pop_val(op, None, || h.try_recv()),
        RECV => return pop_val(op, timed, || h.recv(w)),
        POLL => return pop_val(op, None, || h.poll(w)),
        TRY_RECV_REF | RECV_REF | POLL_REF | NEXT => {
            let r = survive(op.f & F_PANIC != 0, || {
                pop_ref(op, timed, || match op.k {
                    TRY_RECV_REF => h.try_recv_ref(),
                    RECV_REF => h.recv_ref(w),
                    POLL_REF => h.poll_ref(w),
                    _ => h.next(),
                })
            });
            match r {
                Some(Ok(g)) => {
                    if op.f & F_HOLD != 0 && st.held.len() < 6 {
                        rt().c.refs_held += 1;
                        st.held.push(g);
                    }
                }
                Some(Err(e)) => return Some(e),
                None => {}
            }
        }
        IS_CLOSED => {
            let i = inv();
            let v = h.is_closed();
            let ret = ev();
            log(|| format!("is_closed -> {}", v));
            hist().query.push(Query { what: 3, val: v as usize, inv: i, ret });
        }
        ZERO => zero_capacity(op.p),
        FMT => {
            rt().boundary();
            show(h);
        }
        EMPTY => {
            let o = Op { k: if op.p & 1 == 0 { TRY_RECV } else { TRY_RECV_REF }, ..Op::default() };
            for _ in 0..2 * hist().cap {
                if rx_op(st, &o, blocking).is_some() {
                    break;
                }
            }
        }
        DRAIN => {
            release_all(&mut st.held);
            let mut n = 0u32;
            loop {
                n += 1;
                let mut o = Op { k: RECV, w: W_PLAIN, p: 0, f: op.f };
                match op.p {
                    1 => o.k = RECV_REF,
                    2 => o.k = NEXT,
                    3 => o.k = if n % 2 == 1 { TRY_RECV } else { RECV_REF },
                    4 => {
                        if n < 100 {
                            o.w = W_TIMED;
                            o.p = 4;
                        }
                    }
                    _ => {}
                }
                if rx_op(st, &o, blocking) == Some(E::Closed) {
                    break;
                }
            }
        }
        RELEASE => release_one(&mut st.held, op.p),
        PAUSE => pause(op),
        PANIC => {
            rt().c.panics_with_handles += 1;
            inject_panic();
        }
        _ => {}
    }
    None
}

/// The receiver, passed from one thread to the next.
struct Baton<R: RxApi> {
    h: Option<Box<H<R>>>,
    view: View,
    done: bool,
    waiter: Option<usize>,
}

type SharedBaton<R> = Rc<RefCell<Baton<R>>>;

/// Tells the next thread, even if this one panics, that no more will come.
struct Pass<R: RxApi>(Option<SharedBaton<R>>);

impl<R: RxApi> Drop for Pass<R> {
    fn drop(&mut self) {
        let Some(b) = &self.0 else { return };
        let c = rt().cur;
        let mut b = b.borrow_mut();
        b.done = true;
        b.view = rt().th[c].view.clone();
        let t = b.waiter;
        drop(b);
        if let Some(t) = t {
            let gen = rt().th[t].wgen;
            rt().task_wake(t, gen);
        }
    }
}

fn await_receiver<R: RxApi>(b: SharedBaton<R>) -> Option<Box<H<R>>> {
    let c = rt().cur;
    while !b.borrow().done {
        b.borrow_mut().waiter = Some(c);
        rt().task_wait(None);
    }
    let mut b = b.borrow_mut();
    b.waiter = None;
    rt().th[c].view.join(&b.view);
    b.h.take()
}

fn run_channel<T: TxApi, R: RxApi>(plan: &Plan, tx: T, rx: R) {
    let blocking = is_blocking(plan.flavour);
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    let base = Box::new(H::new(tx, true));
    let mut rx = Some(Box::new(H::new(rx, false)));
    let mut nrx = plan.threads.iter().filter(|t| t.role == Role::Rx).count();
    let mut baton: Option<SharedBaton<R>> = None;
    let ntx = plan.threads.iter().filter(|t| t.role == Role::Tx).count();
    let mut txs: Vec<Box<H<T>>> = vec![];
    for _ in 1..ntx {
        let d = base.get().dup();
        txs.push(Box::new(H::new(d, true)));
    }
    if ntx > 0 {
        txs.push(base);
    } else {
        drop(base);
    }
    for t in &plan.threads {
        let ops = t.ops.clone();
        match t.role {
            Role::Tx => {
                let h = txs.pop().unwrap();
                bodies.push(Box::new(move || {
                    thread_body(move || {
                        let mut st = TxState { spare: None, held: vec![], hs: vec![h] };
                        for op in &ops {
                            tx_op(&mut st, op, blocking);
                        }
                        release_all(&mut st.held);
                    })
                }));
            }
            Role::Rx => {
                nrx -= 1;
                let prev = baton.take();
                let mut first = rx.take();
                if nrx > 0 {
                    baton = Some(Rc::new(RefCell::new(Baton { h: None, view: View::default(), done: false, waiter: None })));
                }
                let next = baton.clone();
                bodies.push(Box::new(move || {
                    thread_body(move || {
                        let pass = Pass(next);
                        let h = match prev {
                            Some(b) => await_receiver(b),
                            None => first.take(),
                        };
                        let Some(h) = h else { return };
                        let mut st = RxState { held: vec![], h };
                        for op in &ops {
                            rx_op(&mut st, op, blocking);
                        }
                        release_all(&mut st.held);
                        if let Some(b) = &pass.0 {
                            rt().c.rx_moved += 1;
                            log(|| "hand the receiver to the next thread".into());
                            b.borrow_mut().h = Some(st.h);
                        } else if !hist().fail.iter().any(|f| !f.push && f.kind == E::Closed) {
                            rt().c.rx_dropped_early += 1;
                        }
                    })
                }));
            }
            _ => {}
        }
    }
    drop(rx);
    crate::rt::run_threads(bodies);
}

// ---- queues ----

pub trait QApi: std::fmt::Debug + 'static {
    type Ref: MsgRef + 'static;
    fn push(&'static self, v: Elem) -> Result<(), Elem>;
    fn push_ref(&'static self) -> Option<Self::Ref>;
    fn push_with(&'static self, f: &mut dyn FnMut(&mut Elem)) -> bool;
    fn pop(&'static self) -> Option<Elem>;
    fn pop_ref(&'static self) -> Option<Self::Ref>;
    fn pop_with(&'static self, f: &mut dyn FnMut(&mut Elem)) -> bool;
    fn len(&'static self) -> usize;
    fn remaining(&'static self) -> usize;
    fn is_empty(&'static self) -> bool;
    fn capacity(&'static self) -> usize;
}

macro_rules! q_api {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> QApi for $t {
            type Ref = thingbuf::Ref<'static, Elem>;
            fn push(&'static self, v: Elem) -> Result<(), Elem> {
                call(Call::NonWaiting, OpKind::PushVal, || self.push(v)).map_err(|e| e.into_inner())
            }
            fn push_ref(&'static self) -> Option<Self::Ref> {
                call(Call::NonWaiting, OpKind::PushRef, || self.push_ref()).ok()
            }
            fn push_with(&'static self, f: &mut dyn FnMut(&mut Elem)) -> bool {
                call(Call::NonWaiting, OpKind::PushRef, || self.push_with(f)).is_ok()
            }
            fn pop(&'static self) -> Option<Elem> {
                call(Call::NonWaiting, OpKind::PopVal, || self.pop())
            }
            fn pop_ref(&'static self) -> Option<Self::Ref> {
                call(Call::NonWaiting, OpKind::PopRef, || self.pop_ref())
            }
            fn pop_with(&'static self, f: &mut dyn FnMut(&mut Elem)) -> bool {
                call(Call::NonWaiting, OpKind::PopRef, || self.pop_with(f)).is_some()
            }
            fn len(&'static self) -> usize {
                call(Call::NonWaiting, OpKind::User, || self.len())
            }
            fn remaining(&'static self) -> usize {
                call(Call::NonWaiting, OpKind::User, || self.remaining())
            }
            fn is_empty(&'static self) -> bool {
                call(Call::NonWaiting, OpKind::User, || self.is_empty())
            }
            fn capacity(&'static self) -> usize {
                self.capacity()
            }
        }
    };
}
q_api!([R: thingbuf::Recycle<Elem> + std::fmt::Debug + 'static] ThingBuf<Elem, R>);
q_api!([const N: usize, R: thingbuf::Recycle<Elem> + std::fmt::Debug + 'static] StaticThingBuf<Elem, N, R>);

type DynQ = dyn QApi<Ref = thingbuf::Ref<'static, Elem>>;

fn q_op(q: &'static DynQ, held: &mut Vec<G<thingbuf::Ref<'static, Elem>>>, op: &Op) -> Option<E> {
    match op.k {
        PUSH => return push_val(op, None, |v| q.push(v).map_err(|v| (E::Full, Some(v)))),
        PUSH_REF => {
            match survive(op.f & F_PANIC != 0, || push_ref(op, None, || q.push_ref().ok_or(E::Full))) {
                Some(Ok(g)) => {
                    if op.f & F_HOLD != 0 && held.len() < 6 {
                        rt().c.refs_held += 1;
                        held.push(g);
                    }
                }
                Some(Err(e)) => return Some(e),
                None => {}
            }
        }
        PUSH_WITH => {
            let k = new_push(false);
            let s = hist().push[k].serial;
            log(|| format!("push_with message {}", s));
            let ok = survive(op.f & F_PANIC != 0, || {
                q.push_with(&mut |e| {
                    let _g = arena::Guard::set(false, false);
                    let x = ev();
                    hist().push[k].claim = Some(x);
                    let addr = e as *const Elem as usize;
                    register_ref(addr, true);
                    fill(e, s, "a push closure");
                    rt().point(PT_USER);
                    if op.f & F_PANIC == 0 {
                        e.w = words(s);
                    } else {
                        hist().push[k].partial = true;
                    }
                    reg().refs.remove(&addr);
                    let x = ev();
                    hist().push[k].rel_inv = Some(x);
                    if op.f & F_PANIC != 0 {
                        rt().c.panics_in_closure += 1;
                        drop(_g);
                        inject_panic();
                    }
                })
            });
            if ok == Some(false) {
                push_failed(k, E::Full, op, None);
                return Some(E::Full);
            }
            let x = ev();
            hist().push[k].rel_ret = Some(x);
        }
        POP => return pop_val(op, None, || q.pop().ok_or(E::Empty)),
        POP_REF => match survive(op.f & F_PANIC != 0, || pop_ref(op, None, || q.pop_ref().ok_or(E::Empty))) {
            Some(Ok(g)) => {
                if op.f & F_HOLD != 0 && held.len() < 6 {
                    rt().c.refs_held += 1;
                    held.push(g);
                }
            }
            Some(Err(e)) => return Some(e),
            None => {}
        },
        POP_WITH => {
            let i = inv();
            log(|| "pop_with".into());
            let mut rec = None;
            let ok = survive(op.f & F_PANIC != 0, || {
                q.pop_with(&mut |e| {
                    let _g = arena::Guard::set(false, false);
                    let got = ev();
                    let addr = e as *const Elem as usize;
                    let first = e.serial;
                    let k = new_pop(i, got, first, false);
                    rec = Some(k);
                    register_ref(addr, false);
                    rt().point(PT_USER);
                    check_content(e, first);
                    reg().refs.remove(&addr);
                    let x = ev();
                    hist().pop[k].rel_inv = Some(x);
                    if op.f & F_PANIC != 0 {
                        rt().c.panics_in_closure += 1;
                        drop(_g);
                        inject_panic();
                    }
                })
            });
            if ok == Some(false) {
                pop_failed(i, E::Empty, op, None);
                return Some(E::Empty);
            }
            if let Some(k) = rec {
                let x = ev();
                hist().pop[k].rel_ret = Some(x);
            }
        }
        LEN | REMAINING | IS_EMPTY => {
            let i = inv();
            let (what, val) = match op.k {
                LEN => (0, q.len()),
                REMAINING => (1, q.remaining()),
                _ => (2, q.is_empty() as usize),
            };
            let ret = ev();
            log(|| format!("{} -> {}", op_name(op.k), val));
            hist().query.push(Query { what, val, inv: i, ret });
        }
        ZERO => zero_capacity(op.p),
        FMT => {
            rt().boundary();
            show(&q);
        }
        FILL | EMPTY => {
            let k = match (op.k, op.p & 1) {
                (FILL, 0) => PUSH,
                (FILL, _) => PUSH_REF,
                (_, 0) => POP,
                _ => POP_REF,
            };
            for _ in 0..2 * hist().cap {
                if q_op(q, held, &Op { k, ..Op::default() }).is_some() {
                    break;
                }
            }
        }
        RELEASE => release_one(held, op.p),
        PAUSE => pause(op),
        PANIC => {
            rt().c.panics_with_handles += 1;
            inject_panic();
        }
        _ => {}
    }
    None
}

fn run_queue(plan: &Plan, q: Box<DynQ>) {
    let p = Box::into_raw(q);
    let q: &'static DynQ = unsafe { &*p };
    preset(plan, || q.push_ref().is_none());
    if q.capacity() != plan.cap as usize {
        rt().violation("false-len", format!("capacity() = {} for a queue made with {}", q.capacity(), plan.cap));
    }
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for t in &plan.threads {
        let ops = t.ops.clone();
        bodies.push(Box::new(move || {
            thread_body(move || {
                let mut held = vec![];
                for op in &ops {
                    q_op(q, &mut held, op);
                }
                release_all(&mut held);
            })
        }));
    }
    crate::rt::run_threads(bodies);
    oracle::unfinished();
    if rt().abort {
        return;
    }
    // some runs leave the queue filled, the others drain it and look
    let n = q.len();
    let x = ev();
    hist().query.push(Query { what: 0, val: n, inv: x, ret: x });
    let drain = Op { k: POP, ..Op::default() };
    let leave = plan.cap as u64 + plan.threads.len() as u64;
    if leave % 4 == 0 {
        // what is left must be dropped with the queue
        let left: Vec<u64> = hist()
            .push
            .iter()
            .filter(|e| e.rel_ret.is_some() && !hist().pop.iter().any(|p| p.serial == e.serial))
            .map(|e| e.serial)
            .collect();
        if left.len() != n {
            rt().violation("lost", format!("{} elements were pushed and not popped, but len() = {}", left.len(), n));
        }
        let x = ev();
        for s in left {
            new_pop(x, x, s, true);
            hist().byval_pops -= 1;
        }
    } else {
        for _ in 0..1000 {
            if q_op(q, &mut vec![], &drain) == Some(E::Empty) {
                break;
            }
        }
        let e = q.is_empty();
        let x = ev();
        hist().query.push(Query { what: 2, val: e as usize, inv: x, ret: x });
    }
    call(Call::MayLock, OpKind::Teardown, || drop(unsafe { Box::from_raw(p) }));
}

// ---- splitting static channels ----

trait SplitApi: 'static {
    type T: TxApi;
    type R: RxApi;
    fn try_split(&'static self) -> Option<(Self::T, Self::R)>;
    fn split(&'static self) -> (Self::T, Self::R);
}
impl<const N: usize> SplitApi for mpsc::StaticChannel<Elem, N> {
    type T = mpsc::StaticSender<Elem>;
    type R = mpsc::StaticReceiver<Elem>;
    fn try_split(&'static self) -> Option<(Self::T, Self::R)> {
        self.try_split()
    }
    fn split(&'static self) -> (Self::T, Self::R) {
        self.split()
    }
}
#[cfg(feature = "std")]
impl<const N: usize> SplitApi for mpsc::blocking::StaticChannel<Elem, N> {
    type T = mpsc::blocking::StaticSender<Elem>;
    type R = mpsc::blocking::StaticReceiver<Elem>;
    fn try_split(&'static self) -> Option<(Self::T, Self::R)> {
        self.try_split()
    }
    fn split(&'static self) -> (Self::T, Self::R) {
        self.split()
    }
}

fn run_split<T: TxApi, R: RxApi>(plan: &Plan, c: Box<dyn SplitApi<T = T, R = R>>) {
    let p = Box::into_raw(c);
    let c: &'static dyn SplitApi<T = T, R = R> = unsafe { &*p };
    let blocking = is_blocking(plan.flavour);
    rt().c.split_races += 1;
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for t in &plan.threads {
        let ops = t.ops.clone();
        bodies.push(Box::new(move || {
            thread_body(move || {
                for op in &ops {
                    if op.k == PAUSE {
                        pause(op);
                        continue;
                    }
                    rt().boundary();
                    // `split` panics where `try_split` refuses
                    let r = if op.f & F_PANIC != 0 {
                        call(Call::NonWaiting, OpKind::User, || {
                            let _g = arena::Guard::set(false, false);
                            catch_unwind(AssertUnwindSafe(|| c.split())).ok()
                        })
                    } else {
                        call(Call::NonWaiting, OpKind::User, || c.try_split())
                    };
                    log(|| format!("{} -> {}", if op.f & F_PANIC != 0 { "split" } else { "try_split" }, r.is_some()));
                    let Some((tx, rx)) = r else { continue };
                    hist().splits += 1;
                    if hist().splits > 1 {
                        rt().fatal("double-split", format!("{} threads obtained the pair of one static channel", hist().splits));
                    }
                    let mut ts = TxState { spare: None, held: vec![], hs: vec![Box::new(H::new(tx, true))] };
                    let mut rs = RxState { held: vec![], h: Box::new(H::new(rx, false)) };
                    for i in 0..op.p {
                        let k = if op.f & 1 == 0 { TRY_SEND } else { TRY_SEND_REF };
                        tx_op(&mut ts, &Op { k, ..Op::default() }, blocking);
                        if i % 3 != 0 {
                            rx_op(&mut rs, &Op { k: TRY_RECV, ..Op::default() }, blocking);
                        }
                    }
                    drop(ts);
                    rx_op(&mut rs, &Op { k: DRAIN, ..Op::default() }, blocking);
                    drop(rs);
                }
            })
        }));
    }
    crate::rt::run_threads(bodies);
    oracle::unfinished();
    if rt().abort {
        return;
    }
    if hist().splits == 0 && plan.threads.iter().any(|t| t.ops.iter().any(|o| o.k == SPLIT)) {
        rt().violation("split-refused", "every thread was refused although the channel had not been split".into());
    }
    call(Call::MayLock, OpKind::Teardown, || drop(unsafe { Box::from_raw(p) }));
}

// ---- one run ----

pub struct Outcome {
    pub viol: Vec<Violation>,
    pub trace: Vec<u8>,
    pub hash: u64,
    pub log: Option<Vec<String>>,
}

macro_rules! static_cap {
    ($cap:expr, $n:ident => $e:expr) => {
        match $cap {
            1 => { const $n: usize = 1; $e }
            2 => { const $n: usize = 2; $e }
            3 => { const $n: usize = 3; $e }
            4 => { const $n: usize = 4; $e }
            5 => { const $n: usize = 5; $e }
            7 => { const $n: usize = 7; $e }
            16 => { const $n: usize = 16; $e }
            33 => { const $n: usize = 33; $e }
            257 => { const $n: usize = 257; $e }
            _ => { const $n: usize = 8; $e }
        }
    };
}
pub(crate) use static_cap;

fn make<T>(f: impl FnOnce() -> T) -> T {
    arena::tracked(false, f)
}

/// Has the push in `f` move the unused queue close to the overflow of its counters.
pub fn preset(plan: &Plan, f: impl FnOnce() -> bool) {
    // without the hook (see check.py) runs start with a new queue
    if plan.wrap > 0 && cfg!(thingbuf_sim_preset) {
        rt().preset = Some(plan.wrap as usize);
        let refused = arena::tracked(false, f);
        assert!(refused && rt().preset.is_none(), "the positions were not preset");
        log(|| format!("positions preset to {} laps before their overflow", plan.wrap));
    }
}

pub fn run(plan: &Plan, seed: u64, script: Option<Vec<u8>>, want_log: bool) -> Outcome {
    arena::reset();
    crate::elem::reset();
    oracle::reset();
    reset_waker_code();
    let h = hist();
    h.cap = plan.cap as usize;
    h.channel = matches!(plan.scen, Scen::Channel | Scen::Split);
    rt().begin(seed, script, plan.weak, plan.sched.clone(), want_log);
    let wakers0 = rt().wakers;
    // a panic of the library on the main thread is a violation already recorded
    let r = catch_unwind(AssertUnwindSafe(|| run_scenario(plan)));
    if let Err(p) = r {
        rt().abort = true;
        if rt().viol.is_empty() {
            let m = last_panic();
            rt().violation("panic", m);
        }
        drop(p);
    }
    oracle::unfinished();
    if !rt().abort {
        finish(plan, wakers0);
    }
    rt().end();
    arena::st().on = false;
    arena::st().count = false;
    Outcome {
        viol: std::mem::take(&mut rt().viol),
        trace: std::mem::take(&mut rt().trace),
        hash: rt().hash,
        log: rt().log.take(),
    }
}

fn run_scenario(plan: &Plan) {
    let cap = plan.cap as usize;
    let custom = plan.rec == 1;
    let shared = plan.rec == 2;
    let _ = custom;
    match (plan.scen, plan.flavour) {
        (Scen::Channel, ASYNC_DYN) => {
            if custom {
                let (t, r) = make(|| mpsc::with_recycle::<Elem, Rec>(cap, Rec));
                preset(plan, || t.try_send_ref().is_err());
                run_channel(plan, t, r)
            } else if shared {
                let (t, r) = make(|| mpsc::with_recycle::<Elem, Arc<Rec>>(cap, Arc::new(Rec)));
                preset(plan, || t.try_send_ref().is_err());
                run_channel(plan, t, r)
            } else {
                let (t, r) = make(|| mpsc::channel::<Elem>(cap));
                preset(plan, || t.try_send_ref().is_err());
                run_channel(plan, t, r)
            }
        }
        (Scen::Channel, ASYNC_STATIC) => static_cap!(cap, N => {
            let p = make(|| Box::into_raw(Box::new(mpsc::StaticChannel::<Elem, N>::new())));
            let (t, r) = unsafe { &*p }.split();
            preset(plan, || t.try_send_ref().is_err());
            run_channel(plan, t, r);
            oracle::unfinished();
            if !rt().abort {
                call(Call::MayLock, OpKind::Teardown, || drop(unsafe { Box::from_raw(p) }));
            }
        }),
        #[cfg(feature = "std")]
        (Scen::Channel, BLOCK_DYN) => {
            if custom {
                let (t, r) = make(|| mpsc::blocking::with_recycle::<Elem, Rec>(cap, Rec));
                preset(plan, || t.try_send_ref().is_err());
                run_channel(plan, t, r)
            } else if shared {
                let (t, r) = make(|| mpsc::blocking::with_recycle::<Elem, Arc<Rec>>(cap, Arc::new(Rec)));
                preset(plan, || t.try_send_ref().is_err());
                run_channel(plan, t, r)
            } else {
                let (t, r) = make(|| mpsc::blocking::channel::<Elem>(cap));
                preset(plan, || t.try_send_ref().is_err());
                run_channel(plan, t, r)
            }
        }
        #[cfg(feature = "std")]
        (Scen::Channel, BLOCK_STATIC) => static_cap!(cap, N => {
            let p = make(|| Box::into_raw(Box::new(mpsc::blocking::StaticChannel::<Elem, N>::new())));
            let (t, r) = unsafe { &*p }.split();
            preset(plan, || t.try_send_ref().is_err());
            run_channel(plan, t, r);
            oracle::unfinished();
            if !rt().abort {
                call(Call::MayLock, OpKind::Teardown, || drop(unsafe { Box::from_raw(p) }));
            }
        }),
        (Scen::Queue, TB_STATIC) => static_cap!(cap, N => {
            if custom {
                run_queue(plan, make(|| Box::new(StaticThingBuf::<Elem, N, Rec>::with_recycle(Rec))))
            } else if shared {
                run_queue(plan, make(|| Box::new(StaticThingBuf::<Elem, N, Arc<Rec>>::with_recycle(Arc::new(Rec)))))
            } else {
                run_queue(plan, make(|| Box::new(StaticThingBuf::<Elem, N>::new())))
            }
        }),
        (Scen::Queue, _) => {
            if custom {
                run_queue(plan, make(|| Box::new(ThingBuf::<Elem, Rec>::with_recycle(cap, Rec))))
            } else if shared {
                run_queue(plan, make(|| Box::new(ThingBuf::<Elem, Arc<Rec>>::with_recycle(cap, Arc::new(Rec)))))
            } else {
                run_queue(plan, make(|| Box::new(ThingBuf::<Elem>::new(cap))))
            }
        }
        #[cfg(feature = "std")]
        (Scen::Split, BLOCK_STATIC) => static_cap!(cap, N => {
            run_split(plan, make(|| Box::new(mpsc::blocking::StaticChannel::<Elem, N>::new())))
        }),
        (Scen::Split, _) => static_cap!(cap, N => {
            run_split(plan, make(|| Box::new(mpsc::StaticChannel::<Elem, N>::new())))
        }),
        (Scen::Coll, _) => crate::coll::run_coll(plan),
        (Scen::PolicyPanic, _) => run_policy_panic(plan),
        _ => {}
    }
}

fn finish(plan: &Plan, wakers0: i64) {
    oracle::check_history(plan);
    let st = arena::st();
    if reg().live != 0 {
        let n = reg().live;
        rt().violation("leak", format!("{} elements were never dropped", n));
    }
    if st.live != 0 {
        rt().violation("leak-memory", format!("{} blocks of memory were never released", st.live));
    }
    if st.double_free != 0 {
        rt().violation("double-free", format!("{} blocks were released twice", st.double_free));
    }
    if rt().wakers != wakers0 {
        let n = rt().wakers - wakers0;
        rt().violation("leak-waker", format!("{} task handles were cloned and not dropped", n));
    }
    if st.counted != 0 && plan.scen != Scen::Coll {
        rt().violation("alloc", format!("operations allocated {} blocks ({} bytes)", st.counted, st.counted_bytes));
    }
}

/// The recycling policy panics inside a push, then the queue is dropped.
fn run_policy_panic(plan: &Plan) {
    let q = make(|| Box::new(ThingBuf::<Elem, Rec>::with_recycle(plan.cap as usize, Rec)));
    let p = Box::into_raw(q);
    let q: &'static ThingBuf<Elem, Rec> = unsafe { &*p };
    reg().bomb_new = 1;
    survive(true, || call(Call::NonWaiting, OpKind::PushRef, || drop(q.push_ref())));
    call(Call::MayLock, OpKind::Teardown, || drop(unsafe { Box::from_raw(p) }));
}

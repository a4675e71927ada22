//! The recorded history of a run and the checks over it.
use crate::elem::reg;
use crate::plan::{Plan, Scen};
use crate::rt::{rt, Block, Ev, TState, NT};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Err {
    Full,
    Empty,
    Closed,
    Timeout,
    Cancelled,
}

#[derive(Clone, Debug)]
pub struct Push {
    pub serial: u64,
    pub tid: u8,
    pub byval: bool,
    pub inv: Ev,
    /// The place was certainly obtained by here.
    pub claim: Option<Ev>,
    pub rel_inv: Option<Ev>,
    pub rel_ret: Option<Ev>,
    pub failed: Option<Err>,
    /// Only the serial number was written (a panic stopped the rest).
    pub partial: bool,
}

#[derive(Clone, Debug)]
pub struct Pop {
    pub serial: u64,
    pub tid: u8,
    pub byval: bool,
    pub inv: Ev,
    pub got: Ev,
    pub rel_inv: Option<Ev>,
    pub rel_ret: Option<Ev>,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub push: bool,
    pub kind: Err,
    pub inv: Ev,
    pub ret: Ev,
    /// Requested duration of a timed operation.
    pub timed: Option<u64>,
    pub op: u8,
    /// When it last woke up within the call.
    pub awake: Ev,
}

#[derive(Clone, Debug)]
pub struct Query {
    /// 0: len, 1: remaining, 2: is_empty, 3: is_closed
    pub what: u8,
    pub val: usize,
    pub inv: Ev,
    pub ret: Ev,
}

#[derive(Clone, Debug)]
pub struct Handle {
    pub created: Ev,
    pub drop_inv: Option<Ev>,
    pub drop_ret: Option<Ev>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Waits {
    No,
    Tx,
    Rx,
}

#[derive(Default)]
pub struct Hist {
    pub push: Vec<Push>,
    pub pop: Vec<Pop>,
    pub fail: Vec<Fail>,
    pub query: Vec<Query>,
    pub tx: Vec<Handle>,
    pub rx: Vec<Handle>,
    pub waits: [Option<Waits>; NT],
    pub byval_pops: u64,
    pub serial: u64,
    pub splits: u64,
    pub split_done: Option<Ev>,
    pub channel: bool,
    pub cap: usize,
}

static mut HIST: *mut Hist = std::ptr::null_mut();
pub fn hist() -> &'static mut Hist {
    unsafe { &mut *HIST }
}
pub fn init() {
    unsafe { HIST = Box::into_raw(Box::new(Hist::default())) }
}
pub fn reset() {
    let h = hist();
    h.push.clear();
    h.pop.clear();
    h.fail.clear();
    h.query.clear();
    h.tx.clear();
    h.rx.clear();
    h.waits = [None; NT];
    h.byval_pops = 0;
    h.serial = 0;
    h.splits = 0;
    h.split_done = None;
}

fn viol(class: &'static str, msg: String) {
    rt().violation(class, msg);
}

impl Push {
    fn ok(&self) -> bool {
        self.claim.is_some()
    }
}

/// All simulated threads are asleep or between operations: nobody may be asleep
/// who could proceed. Called by the scheduler whenever the system is quiet.
pub fn quiescent() {
    let h = hist();
    if !h.channel {
        return;
    }
    let n = rt().th.len();
    for t in 1..n {
        let Some(w) = h.waits[t] else { continue };
        if !matches!(rt().th[t].state, TState::Blocked(Block::Park) | TState::Blocked(Block::Task)) {
            continue;
        }
        match w {
            Waits::Rx => {
                // a completed message at the front?
                let popped = |s: u64| h.pop.iter().any(|p| p.serial == s);
                let avail = h.push.iter().find(|e| {
                    e.rel_ret.is_some()
                        && !popped(e.serial)
                        && h.push.iter().all(|f| {
                            f.serial == e.serial
                                || f.rel_ret.is_some()
                                || f.claim.is_none()
                                || e.claim.unwrap().step < f.inv.step
                        })
                });
                if let Some(e) = avail {
                    viol(
                        "lost-wakeup-rx",
                        format!(
                            "the receiver (T{}) sleeps while message {} (sent by T{}, completed at step {}) is at the front of the queue",
                            t, e.serial, e.tid, e.rel_ret.unwrap().step
                        ),
                    );
                    rt().abort = true;
                    return;
                }
                if !h.tx.is_empty() && h.tx.iter().all(|x| x.drop_ret.is_some()) {
                    viol(
                        "lost-wakeup-rx-closed",
                        format!("the receiver (T{}) sleeps although every sender is gone", t),
                    );
                    rt().abort = true;
                    return;
                }
            }
            Waits::Tx => {
                if let Some(s) = rt().starved(t) {
                    viol(
                        "starved-tx",
                        format!("T{} still waits for room and had been overtaken by three that came later at step {}", t, s),
                    );
                }
                if let Some((s, b)) = rt().passed_over(t) {
                    viol(
                        "unfair-wake",
                        format!("T{} still waits for room, and T{}, which began to wait later, was woken at step {}", t, b, s),
                    );
                }
                if h.rx.iter().any(|x| x.drop_ret.is_some()) {
                    viol(
                        "lost-wakeup-tx-closed",
                        format!("a sender (T{}) sleeps although the receiver is gone", t),
                    );
                    rt().abort = true;
                    return;
                }
                let occupied = h
                    .push
                    .iter()
                    .any(|e| e.ok() && !h.pop.iter().any(|p| p.serial == e.serial && p.rel_ret.is_some()));
                if !occupied {
                    viol(
                        "stranded-tx",
                        format!("a sender (T{}) sleeps although the queue is empty and every message was released", t),
                    );
                    rt().abort = true;
                    return;
                }
            }
            Waits::No => {}
        }
    }
}

/// After the run: the threads that never finished.
pub fn unfinished() {
    let r = rt();
    if r.abort {
        return;
    }
    let mut stuck = vec![];
    for t in 1..r.th.len() {
        if r.th[t].state != TState::Done {
            stuck.push(format!("T{} {:?} in {:?}", t, r.th[t].state, hist().waits[t]));
        }
    }
    if stuck.is_empty() {
        return;
    }
    quiescent();
    if rt().viol.is_empty() {
        viol("deadlock-other", format!("some threads never finish: {}", stuck.join(", ")));
    }
    rt().abort = true;
}

pub fn check_history(plan: &Plan) {
    let h = hist();
    let weak = plan.weak;
    let n = h.push.len();
    let cap = h.cap;
    // index pops by push
    let mut pop_of: Vec<Option<usize>> = vec![None; n];
    for (i, p) in h.pop.iter().enumerate() {
        let k = h.push.iter().position(|e| e.serial == p.serial);
        match k {
            None => viol("phantom", format!("T{} obtained message {} that nobody sent", p.tid, p.serial)),
            Some(k) => {
                let e = &h.push[k];
                if let Some(f) = e.failed {
                    viol(
                        "phantom-failed",
                        format!("T{} obtained message {} whose send by T{} reported {:?}", p.tid, p.serial, e.tid, f),
                    );
                }
                if pop_of[k].is_some() {
                    viol("duplicate", format!("message {} (sent by T{}) was delivered twice", p.serial, e.tid));
                }
                pop_of[k] = Some(i);
                match e.rel_inv {
                    Some(ri) if ri.step < p.got.step => {}
                    _ => {
                        if !e.byval || e.claim.is_none() && e.failed.is_none() && e.inv.step > p.got.step {
                            viol(
                                "early-visible",
                                format!("T{} obtained message {} before T{} completed sending it", p.tid, p.serial, e.tid),
                            )
                        }
                    }
                }
            }
        }
    }
    if !rt().viol.is_empty() {
        return;
    }
    let rx_gone: Option<Ev> = h.rx.iter().filter_map(|x| x.drop_inv).next();

    // delivery: everything sent was received, unless the receiver left first
    for k in 0..n {
        let e = &h.push[k];
        if e.rel_ret.is_some() && pop_of[k].is_none() {
            let excused = h.channel && !drained();
            if !excused {
                viol("lost", format!("message {} (sent by T{}) was never delivered", e.serial, e.tid));
            }
        }
    }

    // order
    for a in 0..n {
        let Some(ca) = h.push[a].claim else { continue };
        let Some(pa) = pop_of[a] else { continue };
        for b in 0..n {
            if a == b || !h.push[b].ok() || !ca.before(&h.push[b].inv, weak) {
                continue;
            }
            let Some(pb) = pop_of[b] else { continue };
            if h.pop[pb].got.before(&h.pop[pa].inv, weak) {
                viol(
                    "order",
                    format!(
                        "message {} (T{}) had its place before the send of message {} (T{}) began, but was received after it",
                        h.push[a].serial, h.push[a].tid, h.push[b].serial, h.push[b].tid
                    ),
                );
            }
        }
    }
    // an overtaken message that was never received (only where nothing is excused)
    if h.channel {
        for a in 0..n {
            let Some(ca) = h.push[a].claim else { continue };
            if pop_of[a].is_some() {
                continue;
            }
            for b in 0..n {
                if a != b && h.push[b].ok() && pop_of[b].is_some() && ca.before(&h.push[b].inv, weak) {
                    viol(
                        "order",
                        format!(
                            "message {} (T{}) had its place before the send of message {} (T{}) began, but only the later one was received",
                            h.push[a].serial, h.push[a].tid, h.push[b].serial, h.push[b].tid
                        ),
                    );
                }
            }
        }
    }

    // capacity
    {
        let mut evs: Vec<(u64, i32)> = vec![];
        for k in 0..n {
            if let Some(c) = h.push[k].claim {
                evs.push((c.step, 1));
                if let Some(p) = pop_of[k] {
                    if let Some(ri) = h.pop[p].rel_inv {
                        let at = ri.step.max(h.push[k].rel_inv.map_or(0, |x| x.step)).max(c.step);
                        evs.push((at, -1));
                    }
                }
            }
        }
        evs.sort();
        let mut x = 0;
        for (s, d) in evs {
            x += d;
            if x > cap as i32 {
                viol("over-capacity", format!("at step {} the queue of capacity {} holds {} elements", s, cap, x));
                break;
            }
        }
    }

    let all_tx_done_before = |ev: &Ev| {
        !h.tx.is_empty() && h.tx.iter().all(|x| x.drop_ret.map_or(false, |d| d.before(ev, weak)))
    };
    let all_tx_begun_by = |step: u64| {
        h.tx.iter()
            .all(|x| x.created.step > step || x.drop_inv.map_or(false, |d| d.step < step))
    };
    let all_popped_before = |step: u64| {
        (0..n).all(|k| !h.push[k].ok() || pop_of[k].map_or(false, |p| h.pop[p].got.step < step))
    };
    let rx_drop_ret = h.rx.iter().filter_map(|x| x.drop_ret).next();

    for f in &h.fail {
        match (f.push, f.kind) {
            (true, Err::Full) => {
                if !full_ok(f, &pop_of, weak) {
                    viol("false-full", format!("{} at step {} was refused for lack of room, but its place was free all along", crate::plan::op_name(f.op), f.inv.step));
                }
            }
            (true, Err::Timeout) => {
                if !full_ok(f, &pop_of, weak) {
                    viol("false-timeout-tx", format!("a timed send at step {} timed out, but there was room all along", f.inv.step));
                } else if alone(f) && !full_ok(&Fail { inv: f.awake, ..f.clone() }, &pop_of, weak) {
                    viol("false-timeout-tx", format!("the only send, a timed one at step {}, timed out, but there was room before it last woke up", f.inv.step));
                }
            }
            (false, Err::Empty) => {
                if let Some(s) = empty_bad(f, &pop_of, weak) {
                    viol("false-empty", format!("{} at step {} found nothing, but message {} was available all along", crate::plan::op_name(f.op), f.inv.step, s));
                }
                if h.channel && all_tx_done_before(&f.inv) && all_popped_before(f.inv.step) {
                    viol("closed-missed-rx", format!("{} at step {} reports empty although every sender is gone and everything was received", crate::plan::op_name(f.op), f.inv.step));
                }
            }
            (false, Err::Timeout) => {
                // A receiver that wakes up looks again before it gives up.
                let f = &Fail { inv: f.awake, ..f.clone() };
                if let Some(s) = empty_bad(f, &pop_of, weak) {
                    viol("false-timeout", format!("a timed receive at step {} timed out, but message {} was available before it last woke up", f.inv.step, s));
                }
                if all_tx_done_before(&f.inv) && all_popped_before(f.inv.step) {
                    viol("closed-missed-rx", format!("a timed receive at step {} timed out although every sender is gone and everything was received", f.inv.step));
                }
            }
            (false, Err::Closed) => {
                if !all_tx_begun_by(f.ret.step) {
                    viol("false-closed-rx", format!("{} at step {} reports closed while a sender exists", crate::plan::op_name(f.op), f.inv.step));
                }
                if !all_popped_before(f.ret.step) {
                    viol("closed-early", format!("{} at step {} reports closed while a sent message has not been received", crate::plan::op_name(f.op), f.inv.step));
                }
            }
            (true, Err::Closed) => {
                if !rx_gone.map_or(false, |d| d.step < f.ret.step) {
                    viol("false-closed-tx", format!("{} at step {} reports closed while the receiver exists", crate::plan::op_name(f.op), f.inv.step));
                }
            }
            _ => {}
        }
        if f.push && matches!(f.kind, Err::Full | Err::Timeout) {
            if let Some(d) = rx_drop_ret {
                if d.before(&f.inv, weak) {
                    viol("closed-missed-tx", format!("{} at step {} reports {:?} although the receiver was gone before", crate::plan::op_name(f.op), f.inv.step, f.kind));
                }
            }
        }
        if let (Some(d), Err::Timeout) = (f.timed, f.kind) {
            if f.ret.now - f.inv.now < d {
                viol("timeout-early", format!("{} with timeout {} ns timed out after {} ns", crate::plan::op_name(f.op), d, f.ret.now - f.inv.now));
            }
        }
    }
    // What one operation has reported closed stays closed for those after it.
    for c in h.fail.iter().filter(|f| f.kind == Err::Closed) {
        for f in h.fail.iter().filter(|f| f.push == c.push && matches!(f.kind, Err::Full | Err::Empty | Err::Timeout)) {
            if c.ret.before(&f.inv, weak) {
                viol(
                    if f.push { "closed-missed-tx" } else { "closed-missed-rx" },
                    format!("{} at step {} reports {:?} although {} had reported closed at step {}", crate::plan::op_name(f.op), f.inv.step, f.kind, crate::plan::op_name(c.op), c.ret.step),
                );
            }
        }
        for q in h.query.iter().filter(|q| !c.push && q.what == 3 && q.val == 0) {
            if c.ret.before(&q.inv, weak) {
                viol("false-is-closed", format!("is_closed() at step {} is false although {} had reported closed at step {}", q.inv.step, crate::plan::op_name(c.op), c.ret.step));
            }
        }
        if c.push {
            for e in h.push.iter().filter(|e| e.claim.is_some()) {
                if c.ret.before(&e.inv, weak) {
                    viol("sent-after-close", format!("message {} was accepted although {} had reported closed at step {}", e.serial, crate::plan::op_name(c.op), c.ret.step));
                }
            }
        }
    }
    for e in &h.push {
        if let (Some(_), Some(d)) = (e.claim, rx_drop_ret) {
            if d.before(&e.inv, weak) {
                viol("sent-after-close", format!("message {} was accepted although the receiver was gone before", e.serial));
            }
        }
    }

    for q in &h.query {
        match q.what {
            3 => {
                if q.val == 1 && !all_tx_begun_by(q.ret.step) {
                    viol("false-is-closed", format!("is_closed() at step {} is true while a sender exists", q.inv.step));
                }
                if q.val == 0 && all_tx_done_before(&q.inv) {
                    viol("false-is-closed", format!("is_closed() at step {} is false although every sender is gone", q.inv.step));
                }
            }
            _ => {
                let (lo, hi) = match q.what {
                    0 => (q.val, q.val),
                    1 => {
                        if q.val > cap {
                            viol("false-len", format!("remaining() = {} with capacity {}", q.val, cap));
                            continue;
                        }
                        (cap - q.val, cap - q.val)
                    }
                    _ => {
                        if q.val == 1 {
                            (0, 0)
                        } else {
                            (1, cap)
                        }
                    }
                };
                if hi > cap {
                    viol("false-len", format!("len() = {} with capacity {}", q.val, cap));
                    continue;
                }
                if !len_ok(q, lo, hi, &pop_of) && !(weak && len_ok_weak(q, lo, hi, &pop_of)) {
                    viol(
                        "false-len",
                        format!(
                            "{}() = {} at steps {}..{} does not match the contents at any moment in between",
                            ["len", "remaining", "is_empty"][q.what as usize], q.val, q.inv.step, q.ret.step
                        ),
                    );
                }
            }
        }
    }

    if plan.rec != 0 && matches!(plan.scen, Scen::Channel | Scen::Queue) {
        let made = reg().new_elements;
        if made > cap as u64 + h.byval_pops {
            viol(
                "too-many-new",
                format!("the policy made {} new elements for capacity {} and {} by-value receives", made, cap, h.byval_pops),
            );
        }
    }
}

/// Did the receiver run until it saw the close?
fn drained() -> bool {
    let h = hist();
    h.fail.iter().any(|f| !f.push && f.kind == Err::Closed)
}

/// No other send can have been waiting, or have been given a wake-up, during this one.
fn alone(f: &Fail) -> bool {
    let h = hist();
    h.push.iter().all(|p| {
        let end = match p.claim {
            Some(c) => Some(c.step),
            None => h.fail.iter().find(|g| g.push && g.inv.step == p.inv.step && g.inv.tid == p.inv.tid).map(|g| g.ret.step),
        };
        p.inv.step == f.inv.step && p.inv.tid == f.inv.tid || p.inv.step > f.ret.step || end.map_or(false, |e| e < f.inv.step)
    })
}

/// A refusal for lack of room needs an element u that may still have been
/// unreleased during the call and may lie a full lap before the wanted place.
fn full_ok(f: &Fail, pop_of: &[Option<usize>], weak: bool) -> bool {
    let h = hist();
    let cap = h.cap;
    let n = h.push.len();
    for u in 0..n {
        let eu = &h.push[u];
        if !eu.ok() || eu.inv.step > f.ret.step {
            continue;
        }
        if let Some(p) = pop_of[u] {
            if let Some(rr) = h.pop[p].rel_ret {
                if rr.before(&f.inv, weak) {
                    continue;
                }
            }
        }
        let mut span = 1;
        for w in 0..n {
            let ew = &h.push[w];
            if w == u || !ew.ok() || ew.inv.step > f.ret.step {
                continue;
            }
            if ew.claim.unwrap().before(&eu.inv, weak) {
                continue;
            }
            span += 1;
        }
        if span >= cap {
            return true;
        }
    }
    false
}

/// An "empty" is wrong if some element was published before the call, stayed
/// until after it, and everything that may lie in front of it was published too.
fn empty_bad(f: &Fail, pop_of: &[Option<usize>], weak: bool) -> Option<u64> {
    let h = hist();
    let n = h.push.len();
    for e in 0..n {
        let pe = &h.push[e];
        let Some(rr) = pe.rel_ret else { continue };
        if !rr.before(&f.inv, weak) {
            continue;
        }
        if let Some(p) = pop_of[e] {
            if h.pop[p].inv.step < f.ret.step {
                continue;
            }
        }
        let ok = (0..n).all(|g| {
            let pg = &h.push[g];
            g == e
                || !pg.ok()
                || pg.rel_ret.map_or(false, |r| r.before(&f.inv, weak))
                || pe.claim.unwrap().before(&pg.inv, weak)
                || pop_of[g].map_or(false, |p| h.pop[p].got.before(&f.inv, weak))
        });
        if ok {
            return Some(pe.serial);
        }
    }
    None
}

/// The same under weak memory, where moments are the sets of operations closed
/// under happens-before.
fn len_ok_weak(q: &Query, lo: usize, hi: usize, pop_of: &[Option<usize>]) -> bool {
    let h = hist();
    // (start, end, +1 or -1, index of the push)
    let mut open: Vec<(Ev, Ev, i64, usize)> = vec![];
    let mut n = 0i64;
    let mut add = |inv: Ev, end: Ev, d: i64, k: usize| {
        if end.before(&q.inv, true) {
            n += d;
        } else if !q.ret.before(&inv, true) {
            open.push((inv, end, d, k));
        }
    };
    for (k, e) in h.push.iter().enumerate() {
        if e.ok() {
            add(e.inv, e.claim.unwrap(), 1, k);
            if let Some(p) = pop_of[k] {
                add(h.pop[p].inv, h.pop[p].got, -1, k);
            }
        }
    }
    let m = open.len();
    if m > 24 {
        return true;
    }
    let need: Vec<u32> = (0..m)
        .map(|b| {
            (0..m)
                .filter(|&a| a != b && (open[a].1.before(&open[b].0, true) || open[a].3 == open[b].3 && open[a].2 > open[b].2))
                .fold(0, |x, a| x | 1 << a)
        })
        .collect();
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![(0u32, n)];
    while let Some((set, n)) = todo.pop() {
        if n >= lo as i64 && n <= hi as i64 || seen.len() > 20_000 {
            return true;
        }
        for b in 0..m {
            if set >> b & 1 == 0 && need[b] & !set == 0 && seen.insert(set | 1 << b) {
                todo.push((set | 1 << b, n + open[b].2));
            }
        }
    }
    false
}

fn len_ok(q: &Query, lo: usize, hi: usize, pop_of: &[Option<usize>]) -> bool {
    let h = hist();
    // moments worth looking at: the start of the call and every event inside it
    let mut at = vec![q.inv.step];
    let mut add = |s: u64| {
        if s > q.inv.step && s <= q.ret.step {
            at.push(s)
        }
    };
    for e in h.push.iter().filter(|e| e.ok()) {
        add(e.inv.step);
        add(e.claim.unwrap().step);
    }
    for p in &h.pop {
        add(p.inv.step);
        add(p.got.step);
    }
    for t in at {
        let mut lower = 0i64;
        let mut upper = 0i64;
        for (k, e) in h.push.iter().enumerate() {
            if !e.ok() {
                continue;
            }
            let surely_in = e.claim.unwrap().step <= t;
            let maybe_in = e.inv.step <= t;
            let (maybe_out, surely_out) = match pop_of[k] {
                Some(p) => (h.pop[p].inv.step <= t, h.pop[p].got.step <= t),
                None => (false, false),
            };
            if surely_in && !maybe_out {
                lower += 1;
            }
            if maybe_in && !surely_out {
                upper += 1;
            }
        }
        if hi as i64 >= lower && lo as i64 <= upper {
            return true;
        }
    }
    false
}

//! The simulator: one OS thread, one coroutine per simulated thread or task, a
//! seeded scheduler that owns every interleaving, a virtual clock, a C++20-style
//! weak memory model with happens-before tracking, and the implementations of
//! the `__tbsim_*` hooks that the code under test calls.
use crate::arena;
use std::sync::atomic::{AtomicU64, Ordering};

pub const NT: usize = 12;
pub type VC = [u32; NT];

#[derive(Clone, Default, Debug)]
pub struct View {
    pub vc: VC,
    pub loc: Vec<u32>,
}

impl View {
    pub fn join(&mut self, o: &View) {
        for i in 0..NT {
            if o.vc[i] > self.vc[i] {
                self.vc[i] = o.vc[i];
            }
        }
        join_loc(&mut self.loc, &o.loc);
    }
    fn clear(&mut self) {
        self.vc = [0; NT];
        self.loc.clear();
    }
}

fn join_loc(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        if *y > *x {
            *x = *y;
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() >> 32) * n) >> 32
    }
    #[inline]
    pub fn chance(&mut self, per_1024: u32) -> bool {
        per_1024 > 0 && (self.next() & 1023) < per_1024 as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Block {
    Park,
    Task,
    Sleep,
    Mutex(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TState {
    Run,
    Blocked(Block),
    Done,
}

/// What kind of library call a thread is inside.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    /// Not inside the library.
    Outside,
    /// Must finish in a bounded number of own steps whatever the others do.
    NonWaiting,
    /// May take the internal lock.
    MayLock,
    /// May wait, but must sleep rather than spin.
    Waiting,
}

/// A waiting sender overtaken by so many that came later counts as starved.
const STARVE: u32 = 3;

/// A sender's place among those who wait for room.
#[derive(Clone, Copy, Default)]
pub struct Line {
    /// It is in a waiting send that is followed here.
    on: bool,
    began: u64,
    /// It has certainly been in the line since then.
    since: Option<u64>,
    /// A sender that joined later was woken then.
    over: Option<(u64, usize)>,
    /// How many of those there have been, and when it was the `STARVE`th.
    passed: u32,
    starved: Option<u64>,
    /// Woken since its last look.
    hit: bool,
}

pub struct Th {
    pub state: TState,
    pub view: View,
    acq: View,
    rel: View,
    token: bool,
    token_view: View,
    pub deadline: Option<u64>,
    pub timed_out: bool,
    pub woken: bool,
    wake_view: View,
    pub wgen: u32,
    pub panicking: bool,
    pub call: Call,
    pub held: bool,
    prio: u32,
    stale: Vec<u8>,
    /// When its last sleep ended.
    pub awake: Option<Ev>,
    pub own: u64,
    /// End of the timed operation in progress (simulated ns).
    pub op_deadline: Option<u64>,
    /// Requested length of the timed operation, until it first reads the clock.
    pub op_timeout: Option<u64>,
    last_now: u64,
    /// How far a timer may be late because the thread was preempted between
    /// reading the clock and going to sleep.
    excuse: u64,
    pub after_deadline: u32,
    /// When its outermost library call began.
    pub call_start: u64,
    pub line: Line,
    yielder: *const corosensei::Yielder<(), ()>,
}

impl Th {
    fn new() -> Th {
        Th {
            state: TState::Run,
            view: View::default(),
            acq: View::default(),
            rel: View::default(),
            token: false,
            token_view: View::default(),
            deadline: None,
            timed_out: false,
            woken: false,
            wake_view: View::default(),
            wgen: 0,
            panicking: false,
            call: Call::Outside,
            held: false,
            prio: 0,
            stale: Vec::new(),
            awake: None,
            own: 0,
            op_deadline: None,
            op_timeout: None,
            last_now: 0,
            excuse: 0,
            after_deadline: 0,
            call_start: 0,
            line: Line::default(),
            yielder: std::ptr::null(),
        }
    }
}

struct Msg {
    val: u64,
    view: View,
}

struct Loc {
    base: u32,
    msgs: Vec<Msg>,
    acc: VC,
}

struct CellMeta {
    w: (u8, u32),
    r: VC,
}

struct MutexMeta {
    owner: Option<usize>,
    view: View,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: &'static str,
    pub msg: String,
    pub step: u64,
}

#[derive(Clone, Debug)]
pub struct SchedCfg {
    /// 0: random walk, 1: PCT-style priorities, 2: run-to-block with rare switches.
    pub strategy: u8,
    pub p_switch: u32,
    pub pct: Vec<u64>,
    pub p_spur: u32,
    pub p_clock: u32,
    pub p_solo: u32,
    pub p_hold: u32,
    pub p_stale: u32,
    pub p_weak: u32,
    /// After this many steps: no faults, fair scheduling.
    pub fair_after: u64,
    /// Progress must be complete by this many steps.
    pub cap: u64,
}

impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg {
            strategy: 0,
            p_switch: 100,
            pct: vec![],
            p_spur: 0,
            p_clock: 0,
            p_solo: 0,
            p_hold: 0,
            p_stale: 0,
            p_weak: 0,
            fair_after: 6000,
            cap: 80_000,
        }
    }
}

macro_rules! counters {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Default, Debug)]
        pub struct Counters { $(pub $n: u64),* }
        impl Counters {
            pub fn add(&mut self, o: &Counters) { $(self.$n += o.$n;)* }
            pub fn list(&self) -> Vec<(&'static str, u64)> { vec![$((stringify!($n), self.$n)),*] }
        }
    };
}
counters!(
    steps,
    switches,
    stale_reads,
    weak_cas_failures,
    spurious_wakeups,
    clock_jumps,
    timer_jumps,
    solo_freezes,
    boundary_holds,
    lock_blocks,
    parks,
    unparks,
    line_wakes,
    task_waits,
    second_futures,
    rx_moved,
    fans,
    task_wakes,
    stale_waker_wakes,
    cancelled_unpolled,
    cancelled_waiting,
    cancelled_after_wake,
    timeouts_send,
    timeouts_recv,
    waker_changes,
    spurious_polls,
    panics_in_ref,
    panics_in_closure,
    panics_with_handles,
    reentrant_wakes,
    inline_polls,
    clone_panics,
    rx_dropped_early,
    handles_cloned,
    handles_dropped,
    refs_held,
    full_results,
    empty_results,
    closed_results,
    messages,
    laps,
    fair_phase_runs,
    split_races,
    sim_ns,
);

pub struct Rt {
    pub active: bool,
    pub abort: bool,
    epoch: u32,
    pub weak: bool,
    pub th: Vec<Th>,
    pub cur: usize,
    next: Option<usize>,
    pub step: u64,
    pub now: u64,
    consec: u64,
    solo: Option<usize>,
    locs: Vec<Loc>,
    cells: Vec<CellMeta>,
    mutexes: Vec<MutexMeta>,
    arcs: Vec<View>,
    sc: Vec<u32>,
    rng: Rng,
    script: Option<Vec<u8>>,
    script_pos: usize,
    pub trace: Vec<u8>,
    /// Where decisions are also written so that they survive a crash.
    pub sink: *mut u8,
    pub sink_cap: usize,
    pub cfg: SchedCfg,
    pub viol: Vec<Violation>,
    pub c: Counters,
    pub hash: u64,
    pub wakers: i64,
    /// Laps left before the position counters overflow, for the next push.
    pub preset: Option<usize>,
    pub log: Option<Vec<String>>,
    // Several coroutines reach this object through references of their own; a
    // type that is not `Unpin` is not assumed to be unaliased.
    _pin: std::marker::PhantomPinned,
}

static mut RT: *mut Rt = std::ptr::null_mut();

#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

pub fn init() {
    let r = Box::new(Rt {
        active: false,
        abort: false,
        epoch: 0,
        weak: false,
        th: vec![Th::new()],
        cur: 0,
        next: None,
        step: 0,
        now: 0,
        consec: 0,
        solo: None,
        locs: vec![],
        cells: vec![],
        mutexes: vec![],
        arcs: vec![],
        sc: vec![],
        rng: Rng::new(0),
        script: None,
        script_pos: 0,
        trace: vec![],
        sink: std::ptr::null_mut(),
        sink_cap: 0,
        cfg: SchedCfg::default(),
        viol: vec![],
        c: Counters::default(),
        hash: 0,
        wakers: 0,
        preset: None,
        log: None,
        _pin: std::marker::PhantomPinned,
    });
    unsafe { RT = Box::into_raw(r) };
}

const K_LOC: u64 = 1;
const K_CELL: u64 = 2;
const K_MUTEX: u64 = 3;
const K_ARC: u64 = 4;
const DEAD: u64 = 0xDEAD_0000_0000_0000;

pub const PT_ATOMIC: u8 = 0;
pub const PT_SPIN: u8 = 1;
pub const PT_YIELD: u8 = 2;
pub const PT_ARC: u8 = 3;
pub const PT_CELL: u8 = 4;
pub const PT_LOCK: u8 = 5;
pub const PT_WAKE: u8 = 6;
pub const PT_USER: u8 = 7;

/// Own steps without anybody else moving after which a call is stuck.
const SOLO_BOUND: u64 = 4000;
const AFTER_DEADLINE_BOUND: u32 = 4000;

impl Rt {
    pub fn begin(&mut self, seed: u64, script: Option<Vec<u8>>, weak: bool, cfg: SchedCfg, log: bool) {
        self.active = true;
        self.abort = false;
        self.epoch = (self.epoch + 1) & 0xfffff;
        self.weak = weak;
        self.th.clear();
        self.th.push(Th::new());
        self.th[0].view.vc[0] = 1;
        self.cur = 0;
        self.next = None;
        self.step = 0;
        self.now = 1_000_000_000;
        self.consec = 0;
        self.solo = None;
        self.locs.clear();
        self.cells.clear();
        self.mutexes.clear();
        self.arcs.clear();
        self.sc.clear();
        self.rng = Rng::new(seed ^ 0x7363_6865_6475_6c65);
        self.script = script;
        self.script_pos = 0;
        self.trace.clear();
        self.cfg = cfg;
        self.viol.clear();
        self.c = Counters::default();
        self.hash = 0xcbf2_9ce4_8422_2325;
        self.wakers = 0;
        self.preset = None;
        self.log = if log { Some(vec![]) } else { None };
    }

    pub fn end(&mut self) {
        self.active = false;
        self.c.steps += self.step;
        self.c.sim_ns += self.now - 1_000_000_000;
    }

    /// Draws one decision; 0 is always the quiet default.
    #[inline]
    fn decide(&mut self, gen: impl FnOnce(&mut Rng) -> u8) -> u8 {
        let v = match &self.script {
            Some(s) => {
                let v = s.get(self.script_pos).copied().unwrap_or(0);
                self.script_pos += 1;
                v
            }
            None => gen(&mut self.rng),
        };
        self.record(v);
        v
    }

    #[inline]
    fn record(&mut self, v: u8) {
        self.trace.push(v);
        if !self.sink.is_null() && self.trace.len() < self.sink_cap {
            unsafe {
                *(self.sink as *mut u64) = self.trace.len() as u64;
                *self.sink.add(7 + self.trace.len()) = v;
            }
        }
    }

    pub fn decide_pub(&mut self, gen: impl FnOnce(&mut Rng) -> u8) -> u8 {
        self.decide(gen)
    }

    #[inline]
    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01b3);
    }

    pub fn logf(&mut self, f: impl FnOnce() -> String) {
        let (step, cur, now) = (self.step, self.cur, self.now);
        if let Some(l) = &mut self.log {
            l.push(format!("[{:>5} t={}ns T{}] {}", step, now - 1_000_000_000, cur, f()));
        }
    }

    pub fn violation(&mut self, class: &'static str, msg: String) {
        let step = self.step;
        self.logf(|| format!("VIOLATION {}: {}", class, msg));
        self.viol.push(Violation { class, msg, step });
    }

    pub fn faults_on(&self) -> bool {
        self.step < self.cfg.fair_after
    }

    fn fair(&self) -> bool {
        self.step >= self.cfg.fair_after
    }

    #[inline]
    fn runnable(&self, t: usize) -> bool {
        self.th[t].state == TState::Run && !self.th[t].held
    }

    fn next_runnable_after(&self, t: usize) -> Option<usize> {
        let n = self.th.len();
        for k in 1..n {
            let i = (t + k - 1) % (n - 1) + 1; // skip 0
            if i != t && self.runnable(i) {
                return Some(i);
            }
        }
        None
    }

    fn expire_timers(&mut self) {
        for t in 1..self.th.len() {
            if let (TState::Blocked(_), Some(d)) = (self.th[t].state, self.th[t].deadline) {
                if d <= self.now {
                    self.th[t].state = TState::Run;
                    self.th[t].timed_out = true;
                }
            }
        }
    }

    /// The simulated clock moves to `to`; blocked timed operations may not sleep
    /// past their own deadline.
    fn advance_to(&mut self, to: u64) {
        if to <= self.now {
            return;
        }
        for t in 1..self.th.len() {
            if self.th[t].state == TState::Blocked(Block::Park) {
                if let Some(d) = self.th[t].op_deadline {
                    let wake = self.th[t].deadline.unwrap_or(u64::MAX);
                    let ok = d.saturating_add(self.th[t].excuse).saturating_add(1_000);
                    if ok < to && wake > ok {
                        let by = wake.saturating_sub(d);
                        self.violation(
                            "timeout-late",
                            format!(
                                "thread {} sleeps past the end of its timed operation (deadline {} ns, clock moves to {} ns, its own timer is {} ns late)",
                                t, d - 1_000_000_000, to - 1_000_000_000, by
                            ),
                        );
                        self.abort = true;
                    }
                }
            }
        }
        self.now = to;
        self.expire_timers();
    }

    /// Picks the thread to run after a scheduling point of the running thread.
    #[inline]
    fn pick(&mut self, kind: u8) -> usize {
        let cur = self.cur;
        if self.solo == Some(cur) {
            return cur;
        }
        let rotate = kind == PT_SPIN || kind == PT_YIELD;
        if self.fair() {
            // Fair, fault-free tail of the run: rotate often.
            if rotate || self.step % 16 == 0 {
                for t in 1..self.th.len() {
                    self.th[t].held = false;
                }
                return self.next_runnable_after(cur).unwrap_or(cur);
            }
            return cur;
        }
        let nt = self.th.len();
        let d = if self.script.is_some() {
            self.decide(|_| 0)
        } else {
            let v = self.gen_decision(kind, rotate);
            self.record(v);
            v
        };
        match d {
            0 => {
                if rotate {
                    self.next_runnable_after(cur).unwrap_or(cur)
                } else {
                    cur
                }
            }
            1..=31 => {
                let t = d as usize - 1;
                if t >= 1 && t < nt && self.runnable(t) {
                    t
                } else {
                    cur
                }
            }
            32..=63 => {
                let t = d as usize - 32;
                if t >= 1 && t < nt {
                    self.spurious_wake(t);
                }
                cur
            }
            64..=79 => {
                self.clock_fault(d - 64);
                cur
            }
            96 => {
                if self.th[cur].call == Call::NonWaiting {
                    self.solo = Some(cur);
                    self.consec = 0;
                    self.c.solo_freezes += 1;
                    self.logf(|| "fault: freeze all other threads".into());
                }
                cur
            }
            _ => cur,
        }
    }

    fn gen_decision(&mut self, kind: u8, rotate: bool) -> u8 {
        let cur = self.cur;
        let nt = self.th.len();
        // faults first
        let r = self.rng.next();
        if self.cfg.p_spur > 0 && (r & 4095) < self.cfg.p_spur as u64 {
            let t = 1 + self.rng.below(nt as u64 - 1) as usize;
            if matches!(self.th[t].state, TState::Blocked(Block::Park) | TState::Blocked(Block::Task)) {
                return 32 + t as u8;
            }
        }
        if self.cfg.p_clock > 0 && ((r >> 12) & 4095) < self.cfg.p_clock as u64 {
            return 64 + self.rng.below(6) as u8;
        }
        if self.cfg.p_solo > 0
            && self.th[cur].call == Call::NonWaiting
            && ((r >> 24) & 4095) < self.cfg.p_solo as u64
        {
            return 96;
        }
        let t = match self.cfg.strategy {
            1 => {
                if self.cfg.pct.contains(&self.step) || (rotate && (r >> 36) & 3 == 0) {
                    let low = self.th.iter().map(|t| t.prio).min().unwrap_or(0);
                    self.th[cur].prio = low.saturating_sub(1);
                }
                let mut best = cur;
                for t in 1..nt {
                    if self.runnable(t) && self.th[t].prio > self.th[best].prio {
                        best = t;
                    }
                }
                best
            }
            _ => {
                let p = if rotate {
                    700
                } else if kind == PT_CELL {
                    self.cfg.p_switch / 2
                } else {
                    self.cfg.p_switch
                };
                if ((r >> 36) & 1023) < p as u64 {
                    let k = self.rng.below(nt as u64 - 1) as usize + 1;
                    // nearest runnable at or after k
                    let mut c = cur;
                    for j in 0..nt - 1 {
                        let i = (k + j - 1) % (nt - 1) + 1;
                        if i != cur && self.runnable(i) {
                            c = i;
                            break;
                        }
                    }
                    c
                } else {
                    cur
                }
            }
        };
        if rotate {
            1 + t as u8
        } else if t == cur {
            0
        } else {
            1 + t as u8
        }
    }

    fn spurious_wake(&mut self, t: usize) {
        match self.th[t].state {
            TState::Blocked(Block::Park) => {
                self.th[t].state = TState::Run;
                self.c.spurious_wakeups += 1;
                self.logf(|| format!("fault: spurious wake-up of T{}", t));
            }
            TState::Blocked(Block::Task) => {
                self.th[t].state = TState::Run;
                self.c.spurious_polls += 1;
                self.logf(|| format!("fault: spurious poll of T{}", t));
            }
            _ => {}
        }
    }

    fn clock_fault(&mut self, k: u8) {
        let next = self.next_timer();
        let to = match (k, next) {
            (0, _) => self.now + 500,
            (1, _) => self.now + 50_000,
            (2, _) => self.now + 5_000_000,
            (3, Some(d)) => d,
            (4, Some(d)) => d.saturating_sub(1),
            (5, Some(d)) => d.saturating_add(1_000),
            _ => self.now + 1_000,
        };
        // never jump over a timer by more than the fault itself: timers fire at
        // their time, then the clock goes on.
        while let Some(d) = self.next_timer() {
            if d > to {
                break;
            }
            self.advance_to(d.max(self.now + 1));
            self.expire_timers();
        }
        self.advance_to(to);
        self.c.clock_jumps += 1;
        self.logf(|| format!("fault: clock jump {}", k));
    }

    fn next_timer(&self) -> Option<u64> {
        self.th
            .iter()
            .skip(1)
            .filter(|t| matches!(t.state, TState::Blocked(_)))
            .filter_map(|t| t.deadline)
            // (timers centuries away never fire)
            .filter(|d| *d < 1 << 62)
            .min()
    }

    /// Picks a thread when the running one cannot continue.
    fn pick_blocked(&mut self) -> Option<usize> {
        loop {
            let n = self.th.len();
            let mut cand = [0usize; NT];
            let mut nc = 0;
            for t in 1..n {
                if self.runnable(t) {
                    cand[nc] = t;
                    nc += 1;
                }
            }
            if nc == 0 {
                // everybody is asleep or between operations
                crate::oracle::quiescent();
                if self.abort {
                    return None;
                }
                let mut any = false;
                for t in 1..n {
                    if self.th[t].held {
                        self.th[t].held = false;
                        any |= self.th[t].state == TState::Run;
                    }
                }
                if any {
                    continue;
                }
                if let Some(d) = self.next_timer() {
                    self.c.timer_jumps += 1;
                    let to = d.max(self.now);
                    self.advance_to(to);
                    self.expire_timers();
                    if self.abort {
                        return None;
                    }
                    continue;
                }
                return None;
            }
            if nc == 1 {
                return Some(cand[0]);
            }
            if self.fair() {
                return self.next_runnable_after(self.cur.max(1)).or(Some(cand[0]));
            }
            let strategy = self.cfg.strategy;
            let best = if strategy == 1 {
                let mut b = cand[0];
                for &t in &cand[..nc] {
                    if self.th[t].prio > self.th[b].prio {
                        b = t;
                    }
                }
                Some(b)
            } else {
                None
            };
            let d = self.decide(|r| match best {
                Some(b) => b as u8,
                None => cand[r.below(nc as u64) as usize] as u8,
            });
            let t = d as usize;
            return Some(if t >= 1 && t < n && self.runnable(t) { t } else { cand[0] });
        }
    }

    fn suspend(&mut self) {
        let y = self.th[self.cur].yielder;
        self.c.switches += 1;
        unsafe { (*y).suspend(()) };
    }

    fn stop_here(&mut self) -> ! {
        self.abort = true;
        loop {
            self.next = None;
            self.suspend();
        }
    }

    /// Reports a violation from inside a simulated thread and stops the run.
    pub fn fatal(&mut self, class: &'static str, msg: String) {
        self.violation(class, msg);
        if self.cur != 0 {
            self.stop_here();
        }
        self.abort = true;
    }

    fn switch_to(&mut self, t: usize) {
        self.next = Some(t);
        self.consec = 0;
        self.suspend();
        if self.abort {
            self.stop_here();
        }
    }

    /// A scheduling point of the running thread.
    #[inline]
    pub fn point(&mut self, kind: u8) {
        if !self.active || self.cur == 0 {
            return;
        }
        if self.abort {
            self.stop_here();
        }
        let cur = self.cur;
        self.step += 1;
        self.now += 20;
        self.consec += 1;
        self.th[cur].own += 1;
        self.mix(cur as u64 | (kind as u64) << 8);
        if self.consec > SOLO_BOUND {
            self.check_stuck();
        }
        if let Some(d) = self.th[cur].op_deadline {
            // Steps it takes while another thread is stopped in the middle of an
            // operation do not count: that thread may have to move first.
            if self.now > d && (self.fair() || self.quiet(cur)) {
                self.th[cur].after_deadline += 1;
                if self.th[cur].after_deadline > AFTER_DEADLINE_BOUND {
                    self.fatal(
                        "timeout-late",
                        format!("a timed operation of thread {} took {} of its own steps after its deadline without returning", cur, AFTER_DEADLINE_BOUND),
                    );
                }
            }
        }
        if self.step > self.cfg.cap {
            let who: Vec<String> = (1..self.th.len())
                .map(|t| format!("T{}:{:?}/{:?}", t, self.th[t].state, self.th[t].call))
                .collect();
            self.fatal(
                "livelock",
                format!("no completion {} steps after faults stopped ({})", self.cfg.cap - self.cfg.fair_after, who.join(" ")),
            );
        }
        let t = self.pick(kind);
        if self.abort {
            self.stop_here();
        }
        if t != cur {
            self.switch_to(t);
        }
    }

    #[cold]
    fn check_stuck(&mut self) {
        let cur = self.cur;
        match self.th[cur].call {
            Call::NonWaiting => {
                let m = format!(
                    "thread {} took {} own steps inside a non-waiting call while no other thread moved",
                    cur, SOLO_BOUND
                );
                self.fatal("not-nonblocking", m);
            }
            Call::Waiting => {
                if self.quiet(cur) {
                    let m = format!(
                        "thread {} took {} own steps inside a waiting call while every other thread was idle outside the library or asleep",
                        cur, SOLO_BOUND
                    );
                    self.fatal("busy-wait", m);
                }
                self.consec = 0;
            }
            _ => self.consec = 0,
        }
    }

    /// Is every other thread asleep, finished or outside the library?
    fn quiet(&self, cur: usize) -> bool {
        (1..self.th.len()).all(|t| {
            t == cur
                || match self.th[t].state {
                    TState::Done => true,
                    TState::Blocked(Block::Mutex(_)) => false,
                    TState::Blocked(_) => true,
                    TState::Run => self.th[t].call == Call::Outside,
                }
        })
    }

    pub fn enter_call(&mut self, c: Call) {
        let cur = self.cur;
        self.consec = 0;
        self.th[cur].call = c;
        // a waker may run code that is allowed to wait
        if self.solo == Some(cur) && c != Call::NonWaiting {
            self.solo = None;
        }
    }

    pub fn leave_call(&mut self) {
        let cur = self.cur;
        self.consec = 0;
        self.th[cur].call = Call::Outside;
        if self.solo == Some(cur) {
            self.solo = None;
        }
    }

    // Senders waiting in line. A sender that went to sleep before another one's send began is in
    // front of it. If the other one is taken from the line and woken, the first has been taken from it
    // before: an operation that begins only after that cannot be the one that wakes the first.

    pub fn line_join(&mut self) {
        let (c, step) = (self.cur, self.step);
        self.th[c].line = Line { on: true, began: step, ..Line::default() };
    }

    pub fn line_leave(&mut self) {
        let c = self.cur;
        self.th[c].line = Line::default();
    }

    /// The waiting send looks again.
    pub fn line_look(&mut self) {
        let c = self.cur;
        self.th[c].line.hit = false;
    }

    /// It is in line and about to sleep.
    pub fn line_sleep(&mut self) {
        let (c, step) = (self.cur, self.step);
        let quiet = self.line_quiet(c);
        let l = &mut self.th[c].line;
        if !l.on {
            return;
        }
        if l.hit {
            l.since = None;
        } else if l.since.is_none() || !quiet {
            l.since = Some(step);
        } else {
            return;
        }
        l.over = None;
        l.passed = 0;
        l.starved = None;
    }

    /// Nobody else is between taking someone from the line and waking it.
    fn line_quiet(&self, c: usize) -> bool {
        (1..self.th.len()).all(|t| {
            t == c
                || self.th[t].call == Call::Outside
                || matches!(self.th[t].state, TState::Blocked(Block::Park) | TState::Blocked(Block::Task))
        })
    }

    /// Was the sleeping sender passed over by one that joined the line later?
    pub fn passed_over(&self, t: usize) -> Option<(u64, usize)> {
        self.th[t].line.over.filter(|_| self.line_quiet(t))
    }

    /// ... and by so many of them that it may wait for ever?
    pub fn starved(&self, t: usize) -> Option<u64> {
        self.th[t].line.starved.filter(|_| self.line_quiet(t))
    }

    fn line_wake(&mut self, t: usize) {
        let (step, start) = (self.step, self.th[self.cur].call_start);
        let l = self.th[t].line;
        if !l.on {
            return;
        }
        self.th[t].line = Line { hit: true, since: None, over: None, passed: 0, starved: None, ..l };
        let Some(since) = l.since else { return };
        self.c.line_wakes += 1;
        if let Some(s) = l.starved.filter(|s| start > *s) {
            self.violation(
                "starved-tx",
                format!("T{} has been waiting for room since step {} and has been overtaken {} times by step {}", t, since, l.passed, s),
            );
        }
        if let Some((s, b)) = l.over {
            if start > s {
                self.violation(
                    "unfair-wake",
                    format!("T{} has been waiting for room since step {} and is woken only after T{}, which began to wait later and was woken at step {}", t, since, b, s),
                );
            }
        }
        if start >= since {
            for a in 1..self.th.len() {
                let x = &mut self.th[a].line;
                if a != t && x.on && x.since.map_or(false, |s| s < l.began) {
                    x.over = x.over.or(Some((step, t)));
                    x.passed += 1;
                    if x.passed == STARVE {
                        x.starved = Some(step);
                    }
                }
            }
        }
    }

    /// Between two library calls of a simulated thread.
    pub fn boundary(&mut self) {
        if !self.active || self.cur == 0 {
            return;
        }
        let cur = self.cur;
        if self.faults_on() && self.cfg.p_hold > 0 && self.th[cur].call == Call::Outside {
            let p = self.cfg.p_hold;
            let d = self.decide(|r| (r.chance(p)) as u8);
            if d == 1 {
                let others = (1..self.th.len()).any(|t| t != cur && self.runnable(t));
                if others {
                    self.th[cur].held = true;
                    self.c.boundary_holds += 1;
                    self.logf(|| "fault: hold this thread between operations".into());
                    self.block_switch();
                    return;
                }
            }
        }
        self.point(PT_USER);
    }

    fn block_switch(&mut self) {
        self.next = None;
        self.consec = 0;
        self.suspend();
        if self.abort {
            self.stop_here();
        }
    }

    /// Blocks the running thread until it is made runnable.
    fn block(&mut self, why: Block, deadline: Option<u64>) {
        let cur = self.cur;
        if self.solo == Some(cur) {
            self.solo = None;
        }
        self.th[cur].state = TState::Blocked(why);
        self.th[cur].deadline = deadline;
        self.th[cur].timed_out = false;
        self.block_switch();
        self.th[cur].deadline = None;
    }

    // ---- ids ----

    #[inline]
    fn lookup(&mut self, id: &AtomicU64, kind: u64) -> Option<usize> {
        let v = id.load(Ordering::Relaxed);
        let want = 0x5A << 56 | kind << 52 | (self.epoch as u64) << 32;
        if v & 0xFFFF_FFFF_0000_0000 == want {
            return Some((v & 0xFFFF_FFFF) as usize);
        }
        if v == 0 {
            let n = match kind {
                K_LOC => self.locs.len(),
                K_CELL => self.cells.len(),
                K_MUTEX => self.mutexes.len(),
                _ => self.arcs.len(),
            };
            match kind {
                K_LOC => self.locs.push(Loc { base: 0, msgs: vec![], acc: [0; NT] }),
                K_CELL => self.cells.push(CellMeta { w: (0, 0), r: [0; NT] }),
                K_MUTEX => self.mutexes.push(MutexMeta { owner: None, view: View::default() }),
                _ => self.arcs.push(View::default()),
            }
            id.store(want | n as u64, Ordering::Relaxed);
            return Some(n);
        }
        let what = if v & 0xFFFF_0000_0000_0000 == DEAD {
            "a wait node that has already been dropped".to_string()
        } else if v == 0xDDDD_DDDD_DDDD_DDDD {
            "freed memory".to_string()
        } else if v == 0xA5A5_A5A5_A5A5_A5A5 {
            "uninitialised memory".to_string()
        } else {
            format!("memory that holds no live object (id {:#x})", v)
        };
        let kind = match kind {
            K_LOC => "atomic",
            K_CELL => "cell",
            K_MUTEX => "mutex",
            _ => "reference count",
        };
        self.fatal("use-after-free", format!("{} access to {}", kind, what));
        None
    }

    fn tick(&mut self) {
        let c = self.cur;
        self.th[c].view.vc[c] += 1;
    }

    #[inline]
    fn loc(&mut self, id: &AtomicU64, cur: u64) -> Option<usize> {
        let l = self.lookup(id, K_LOC)?;
        let t = self.cur;
        self.tick();
        let clk = self.th[t].view.vc[t];
        let loc = &mut self.locs[l];
        loc.acc[t] = clk;
        if loc.msgs.is_empty() {
            loc.msgs.push(Msg { val: cur, view: View::default() });
        } else if loc.msgs.last().unwrap().val != cur {
            loc.msgs.push(Msg { val: cur, view: View::default() });
        }
        Some(l)
    }

    #[inline]
    fn th_loc(&mut self, t: usize, l: usize) -> &mut u32 {
        let v = &mut self.th[t].view.loc;
        if v.len() <= l {
            v.resize(l + 1, 0);
        }
        &mut v[l]
    }

    fn read_at(&mut self, l: usize, idx: u32, order: Ordering) {
        let t = self.cur;
        if self.weak {
            let p = self.th_loc(t, l);
            if idx > *p {
                *p = idx;
            }
        }
        let m = &self.locs[l].msgs[(idx - self.locs[l].base) as usize];
        match order {
            Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst => self.th[t].view.join(&m.view),
            _ => self.th[t].acq.join(&m.view),
        }
        if order == Ordering::SeqCst {
            self.push_sc(l, idx);
        }
    }

    fn push_sc(&mut self, l: usize, idx: u32) {
        if self.weak {
            if self.sc.len() <= l {
                self.sc.resize(l + 1, 0);
            }
            if idx > self.sc[l] {
                self.sc[l] = idx;
            }
        }
    }

    fn choose_idx(&mut self, l: usize, order: Ordering, not: Option<u64>) -> u32 {
        let t = self.cur;
        let hi = self.locs[l].base + self.locs[l].msgs.len() as u32 - 1;
        if !self.weak || order == Ordering::SeqCst || t == 0 || self.fair() {
            return hi;
        }
        let lo = (*self.th_loc(t, l)).max(self.locs[l].base);
        if lo >= hi {
            return hi;
        }
        if self.th[t].stale.len() <= l {
            self.th[t].stale.resize(l + 1, 0);
        }
        // long enough, now and then, to outlast the spinning of the code under test
        if self.th[t].stale[l] >= if self.cfg.p_stale >= 700 { 8 } else { 3 } {
            self.th[t].stale[l] = 0;
            return hi;
        }
        let p = self.cfg.p_stale;
        let n = (hi - lo) as u64;
        let d = self.decide(|r| if r.chance(p) { 1 + r.below(n) as u8 } else { 0 });
        if d == 0 {
            self.th[t].stale[l] = 0;
            return hi;
        }
        let idx = hi - (d as u32).min(hi - lo);
        if let Some(nv) = not {
            if self.locs[l].msgs[(idx - self.locs[l].base) as usize].val == nv {
                return hi;
            }
        }
        self.th[t].stale[l] += 1;
        self.c.stale_reads += 1;
        self.mix(0x1000 | d as u64);
        idx
    }

    fn do_load(&mut self, id: &AtomicU64, cur: u64, order: Ordering, not: Option<u64>) -> u64 {
        let Some(l) = self.loc(id, cur) else { return cur };
        let idx = self.choose_idx(l, order, not);
        self.read_at(l, idx, order);
        let v = self.locs[l].msgs[(idx - self.locs[l].base) as usize].val;
        self.mix(l as u64 ^ v << 20);
        if self.log.is_some() {
            let stale = idx != self.locs[l].base + self.locs[l].msgs.len() as u32 - 1;
            self.logf(|| format!("load  a{} {:?} -> {:#x}{}", l, order, v, if stale { " (stale)" } else { "" }));
        }
        v
    }

    fn do_write(&mut self, l: usize, new: u64, order: Ordering, rmw: bool) {
        let t = self.cur;
        let release = matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst);
        let loc = &mut self.locs[l];
        let idx = loc.base + loc.msgs.len() as u32;
        if self.weak {
            let v = &mut self.th[t].view.loc;
            if v.len() <= l {
                v.resize(l + 1, 0);
            }
            v[l] = idx;
        }
        let mut view = if release {
            self.th[t].view.clone()
        } else {
            self.th[t].rel.clone()
        };
        if rmw {
            view.join(&loc.msgs.last().unwrap().view);
        }
        loc.msgs.push(Msg { val: new, view });
        let keep = if self.weak { 8 } else { 1 };
        if loc.msgs.len() > keep {
            loc.msgs.remove(0);
            loc.base += 1;
        }
        if order == Ordering::SeqCst {
            self.push_sc(l, idx);
        }
        self.mix(l as u64 ^ new << 24);
    }

    fn do_fence(&mut self, order: Ordering) {
        let t = self.cur;
        self.tick();
        let acq = matches!(order, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst);
        let rel = matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst);
        if acq {
            let a = std::mem::take(&mut self.th[t].acq);
            self.th[t].view.join(&a);
        }
        if order == Ordering::SeqCst && self.weak {
            let sc = std::mem::take(&mut self.sc);
            join_loc(&mut self.th[t].view.loc, &sc);
            self.sc = self.th[t].view.loc.clone();
        }
        if rel {
            self.th[t].rel = self.th[t].view.clone();
        }
        self.logf(|| format!("fence {:?}", order));
    }

    fn do_cell(&mut self, id: &AtomicU64, write: bool) {
        let Some(i) = self.lookup(id, K_CELL) else { return };
        self.tick();
        let t = self.cur;
        let vc = self.th[t].view.vc;
        let c = &mut self.cells[i];
        let mut race = None;
        if c.w.1 > vc[c.w.0 as usize] {
            race = Some(("write", c.w.0 as usize));
        }
        if write {
            for u in 0..NT {
                if c.r[u] > vc[u] {
                    race = Some(("read", u));
                }
            }
            c.w = (t as u8, vc[t]);
            c.r = [0; NT];
        } else {
            c.r[t] = vc[t];
        }
        self.logf(|| format!("{} cell c{}", if write { "write" } else { "read " }, i));
        if let Some((k, u)) = race {
            let m = format!(
                "thread {} {} cell c{} without synchronisation with an earlier {} by thread {}",
                t,
                if write { "writes" } else { "reads" },
                i,
                k,
                u
            );
            self.fatal("data-race", m);
        }
    }

    /// The memory of an object goes away: nobody may have touched it without
    /// that being ordered before this point.
    fn do_dead(&mut self, id: &AtomicU64) {
        let v = id.load(Ordering::Relaxed);
        let epoch = (self.epoch as u64) << 32;
        let t = self.cur;
        if v != 0 && v & 0xFF0F_FFFF_0000_0000 == (0x5A << 56 | epoch) {
            let i = (v & 0xFFFF_FFFF) as usize;
            let kind = (v >> 52) & 0xF;
            let vc = self.th[t].view.vc;
            let mut bad = None;
            if kind == K_LOC {
                for u in 0..NT {
                    if u != t && self.locs[i].acc[u] > vc[u] {
                        bad = Some(u);
                    }
                }
            } else if kind == K_CELL {
                let c = &self.cells[i];
                if c.w.1 > vc[c.w.0 as usize] {
                    bad = Some(c.w.0 as usize);
                }
                for u in 0..NT {
                    if c.r[u] > vc[u] {
                        bad = Some(u);
                    }
                }
            }
            id.store(DEAD | i as u64, Ordering::Relaxed);
            if let Some(u) = bad {
                let m = format!("thread {} ends the life of a wait node while an access by thread {} is not ordered before that", t, u);
                self.fatal("use-after-free", m);
            }
        } else {
            id.store(DEAD, Ordering::Relaxed);
        }
    }

    // ---- API for the harness ----

    /// Snapshot of the running thread's position in the history.
    pub fn ev(&mut self) -> Ev {
        self.step += 1;
        self.tick();
        Ev { step: self.step, tid: self.cur as u8, vc: self.th[self.cur].view.vc, now: self.now }
    }

    /// Sleeps as a task until woken (or the deadline passes). True if woken.
    pub fn task_wait(&mut self, deadline: Option<u64>) -> bool {
        let cur = self.cur;
        self.c.task_waits += 1;
        if !self.th[cur].woken {
            if let Some(d) = deadline {
                if d <= self.now {
                    return false;
                }
            }
            self.block(Block::Task, deadline);
        } else {
            self.point(PT_WAKE);
        }
        let w = self.th[cur].woken;
        if w {
            self.th[cur].woken = false;
            let v = std::mem::take(&mut self.th[cur].wake_view);
            self.th[cur].view.join(&v);
        }
        w
    }

    /// The simulated user does something else for a while.
    pub fn sleep(&mut self, ns: u64) {
        let d = self.now.saturating_add(ns);
        self.logf(|| format!("user pauses for {} ns", ns));
        self.block(Block::Sleep, Some(d));
    }

    /// Starts a timed library operation.
    pub fn begin_timed(&mut self, ns: u64) {
        let c = self.cur;
        let now = self.now;
        let d = now.saturating_add(ns);
        let th = &mut self.th[c];
        th.op_deadline = Some(d);
        th.op_timeout = Some(ns);
        th.after_deadline = 0;
        th.last_now = now;
        th.excuse = 0;
    }

    pub fn end_timed(&mut self) {
        let c = self.cur;
        self.th[c].op_deadline = None;
        self.th[c].op_timeout = None;
    }

    pub fn task_wake(&mut self, t: usize, gen: u32) {
        self.point(PT_WAKE);
        self.tick();
        let cur = self.cur;
        if t >= self.th.len() {
            return;
        }
        self.line_wake(t);
        if self.th[t].wgen != gen {
            self.c.stale_waker_wakes += 1;
            self.logf(|| format!("wake T{} through an outdated waker (ignored)", t));
            return;
        }
        self.c.task_wakes += 1;
        self.logf(|| format!("wake T{}", t));
        let v = self.th[cur].view.clone();
        self.th[t].woken = true;
        self.th[t].wake_view.join(&v);
        if self.th[t].state == TState::Blocked(Block::Task) {
            self.th[t].state = TState::Run;
        }
    }

    /// The harness (an executor, a join) orders thread `t` before the current one.
    pub fn join_view(&mut self, t: usize) {
        let v = self.th[t].view.clone();
        let c = self.cur;
        self.th[c].view.join(&v);
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub step: u64,
    pub tid: u8,
    pub vc: VC,
    pub now: u64,
}

impl Ev {
    /// `self` is certainly before `o`: in program/real-time order when memory is
    /// sequentially consistent, in happens-before order when it is weak.
    pub fn before(&self, o: &Ev, weak: bool) -> bool {
        if weak {
            o.step > self.step && o.vc[self.tid as usize] >= self.vc[self.tid as usize]
        } else {
            self.step < o.step
        }
    }
}

// ---- running coroutines ----

type Co = corosensei::Coroutine<(), (), (), corosensei::stack::DefaultStack>;

static mut STACKS: Vec<corosensei::stack::DefaultStack> = Vec::new();
const STACK: usize = 256 << 10;
const WIPE: usize = 24 << 10;

#[allow(static_mut_refs)]
fn get_stack() -> corosensei::stack::DefaultStack {
    use corosensei::stack::Stack;
    let s = unsafe { STACKS.pop() }.unwrap_or_else(|| corosensei::stack::DefaultStack::new(STACK).unwrap());
    unsafe {
        let base = s.base().get();
        // deterministic contents, even for code that reads stale stack memory
        let canary = (base - WIPE - 64) as *mut u64;
        let deep = canary.read() != 0x5747_5747_5747_5747;
        let n = if deep { STACK - 8192 - 64 } else { WIPE };
        core::ptr::write_bytes((base - n) as *mut u8, 0, n);
        canary.write(0x5747_5747_5747_5747);
    }
    s
}

/// Runs the simulated threads to completion. Returns the number that finished.
#[allow(static_mut_refs)]
pub fn run_threads(bodies: Vec<Box<dyn FnOnce()>>) {
    let r = rt();
    let n = bodies.len();
    assert!(n < NT);
    let mut cos: Vec<Option<Co>> = vec![None];
    let mut prios: Vec<u32> = (0..n as u32).map(|i| 1000 + i).collect();
    for i in (1..n).rev() {
        let j = r.decide(|g| g.below(i as u64 + 1) as u8) as usize % (i + 1);
        prios.swap(i, j);
    }
    r.tick();
    for (i, body) in bodies.into_iter().enumerate() {
        let mut th = Th::new();
        th.view = r.th[0].view.clone();
        th.view.vc[i + 1] = 1;
        th.prio = prios[i];
        r.th.push(th);
        let t = i + 1;
        let co = Co::with_stack(get_stack(), move |y, ()| {
            let r = rt();
            r.th[t].yielder = y as *const _;
            body();
            let r = rt();
            r.th[t].state = TState::Done;
            r.th[t].call = Call::Outside;
            r.tick();
        });
        cos.push(Some(co));
    }
    let mut cur: Option<usize> = None;
    loop {
        if rt().abort {
            break;
        }
        let t = match cur.take() {
            Some(t) => t,
            None => match rt().pick_blocked() {
                Some(t) => t,
                None => break,
            },
        };
        let r = rt();
        r.cur = t;
        r.next = None;
        match cos[t].as_mut().unwrap().resume(()) {
            corosensei::CoroutineResult::Yield(()) => {
                cur = rt().next.take();
            }
            corosensei::CoroutineResult::Return(()) => {
                let s = cos[t].take().unwrap().into_stack();
                unsafe { STACKS.push(s) };
            }
        }
    }
    let r = rt();
    r.cur = 0;
    arena::st().on = false;
    arena::st().count = false;
    if r.fair() {
        r.c.fair_phase_runs += 1;
    }
    for t in 1..=n {
        if let Some(mut c) = cos[t].take() {
            if c.started() && !c.done() {
                unsafe { c.force_reset() };
            }
            if !c.started() {
                // its body closure is leaked with the aborted run
                std::mem::forget(c);
            } else {
                let s = c.into_stack();
                unsafe { STACKS.push(s) };
            }
        } else {
            let v = r.th[t].view.clone();
            r.th[0].view.join(&v);
        }
    }
}

// ---- hooks called by the code under test ----

macro_rules! hook {
    ($body:expr) => {{
        let _g = arena::Guard::set(false, false);
        $body
    }};
}

#[no_mangle]
fn __tbsim_point(kind: u8) {
    hook!(rt().point(kind))
}

#[no_mangle]
fn __tbsim_load(id: &AtomicU64, cur: u64, order: Ordering) -> u64 {
    let r = rt();
    if !r.active {
        return cur;
    }
    legal(!matches!(order, Ordering::Release | Ordering::AcqRel), "load", order);
    hook!(r.do_load(id, cur, order, None))
}

/// The real operations panic when given an ordering they do not have.
fn legal(ok: bool, what: &str, order: Ordering) {
    if !ok {
        panic!("there is no such thing as a {} with ordering {:?}", what, order);
    }
}

#[no_mangle]
fn __tbsim_store(id: &AtomicU64, cur: u64, new: u64, order: Ordering) {
    let r = rt();
    if !r.active {
        return;
    }
    legal(!matches!(order, Ordering::Acquire | Ordering::AcqRel), "store", order);
    hook!({
        let Some(l) = r.loc(id, cur) else { return };
        r.do_write(l, new, order, false);
        r.logf(|| format!("store a{} {:?} {:#x} <- {:#x}", l, order, cur, new));
    })
}

#[no_mangle]
fn __tbsim_rmw(id: &AtomicU64, cur: u64, new: u64, order: Ordering) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!({
        let Some(l) = r.loc(id, cur) else { return };
        let hi = r.locs[l].base + r.locs[l].msgs.len() as u32 - 1;
        let lo = match order {
            Ordering::Release => Ordering::Relaxed,
            o => o,
        };
        r.read_at(l, hi, lo);
        r.do_write(l, new, order, true);
        r.logf(|| format!("rmw   a{} {:?} {:#x} -> {:#x}", l, order, cur, new));
    })
}

#[no_mangle]
fn __tbsim_cas_fail(id: &AtomicU64, cur: u64, expected: u64, order: Ordering) -> u64 {
    let r = rt();
    if !r.active {
        return cur;
    }
    legal(!matches!(order, Ordering::Release | Ordering::AcqRel), "failure", order);
    hook!({
        let not = if cur == expected { None } else { Some(expected) };
        if cur == expected {
            // spurious failure reports the current value
            let Some(l) = r.loc(id, cur) else { return cur };
            let hi = r.locs[l].base + r.locs[l].msgs.len() as u32 - 1;
            r.read_at(l, hi, order);
            r.logf(|| format!("cas-weak a{} fails spuriously", l));
            cur
        } else {
            r.do_load(id, cur, order, not)
        }
    })
}

#[no_mangle]
fn __tbsim_spurious() -> bool {
    let r = rt();
    if !r.active || r.cur == 0 || !r.faults_on() || r.cfg.p_weak == 0 || r.solo.is_some() {
        return false;
    }
    hook!({
        let p = r.cfg.p_weak;
        let d = r.decide(|g| g.chance(p) as u8);
        if d == 1 {
            r.c.weak_cas_failures += 1;
            r.mix(0x2222);
        }
        d == 1
    })
}

#[no_mangle]
fn __tbsim_fence(order: Ordering) {
    let r = rt();
    if !r.active {
        return;
    }
    legal(order != Ordering::Relaxed, "fence", order);
    hook!(r.do_fence(order))
}

#[no_mangle]
fn __tbsim_cell(id: &AtomicU64, write: bool) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!({
        r.point(PT_CELL);
        r.do_cell(id, write)
    })
}

#[no_mangle]
fn __tbsim_dead(id: &AtomicU64) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!(r.do_dead(id))
}

#[no_mangle]
fn __tbsim_lock(id: &AtomicU64, wait: bool) -> bool {
    let r = rt();
    if !r.active {
        return true;
    }
    hook!({
        r.point(PT_LOCK);
        let Some(m) = r.lookup(id, K_MUTEX) else { return true };
        loop {
            match r.mutexes[m].owner {
                None => break,
                Some(o) if o == r.cur => {
                    if !wait {
                        return false;
                    }
                    let m = format!("thread {} locks an internal mutex it already holds", o);
                    r.fatal("relock", m);
                    return true;
                }
                Some(_) => {
                    if !wait {
                        return false;
                    }
                    if r.cur == 0 {
                        r.fatal("deadlock-other", "an internal mutex is still locked after all threads ended".into());
                        return true;
                    }
                    r.c.lock_blocks += 1;
                    r.block(Block::Mutex(m as u32), None);
                }
            }
        }
        r.mutexes[m].owner = Some(r.cur);
        r.tick();
        let v = r.mutexes[m].view.clone();
        let c = r.cur;
        r.th[c].view.join(&v);
        r.logf(|| format!("lock  m{}", m));
        r.mix(0x3000 | m as u64);
        true
    })
}

#[no_mangle]
fn __tbsim_unlock(id: &AtomicU64) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!({
        let Some(m) = r.lookup(id, K_MUTEX) else { return };
        r.tick();
        let c = r.cur;
        r.mutexes[m].owner = None;
        r.mutexes[m].view = r.th[c].view.clone();
        r.logf(|| format!("unlock m{}", m));
        for t in 1..r.th.len() {
            if r.th[t].state == TState::Blocked(Block::Mutex(m as u32)) {
                r.th[t].state = TState::Run;
            }
        }
        // another thread may run between the unlock and what follows it
        if !r.th[c].panicking {
            r.point(PT_LOCK);
        }
    })
}

#[no_mangle]
fn __tbsim_arc_clone(id: &AtomicU64) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!({
        let _ = r.lookup(id, K_ARC);
        r.tick();
    })
}

#[no_mangle]
fn __tbsim_arc_drop(id: &AtomicU64, last: bool) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!({
        let Some(a) = r.lookup(id, K_ARC) else { return };
        r.tick();
        let c = r.cur;
        if last {
            let v = r.arcs[a].clone();
            r.th[c].view.join(&v);
        } else {
            let v = r.th[c].view.clone();
            r.arcs[a].join(&v);
        }
    })
}

#[no_mangle]
fn __tbsim_thread() -> u64 {
    rt().cur as u64
}

#[no_mangle]
fn __tbsim_park(timeout: Option<u64>) {
    let r = rt();
    if !r.active || r.cur == 0 {
        if r.active {
            hook!(r.fatal("deadlock-other", "the main thread would block".into()));
        }
        return;
    }
    hook!({
        r.line_sleep();
        r.point(PT_WAKE);
        let c = r.cur;
        r.c.parks += 1;
        if matches!(r.th[c].call, Call::NonWaiting | Call::MayLock) {
            r.violation("not-nonblocking", format!("T{} goes to sleep in an operation that must not wait", c));
        }
        if !r.th[c].token {
            if timeout == Some(0) {
                return;
            }
            let spur = if r.faults_on() && r.cfg.p_spur > 0 {
                let p = r.cfg.p_spur / 4;
                r.decide(|g| g.chance(p) as u8) == 1
            } else {
                false
            };
            if spur {
                r.c.spurious_wakeups += 1;
                r.logf(|| "fault: park returns spuriously".into());
                r.th[c].awake = Some(r.ev());
                r.line_look();
                return;
            }
            r.logf(|| format!("park {:?}", timeout));
            r.th[c].excuse = r.now.saturating_sub(r.th[c].last_now);
            let d = timeout.map(|t| r.now.saturating_add(t));
            r.block(Block::Park, d);
        }
        if r.th[c].token {
            r.th[c].token = false;
            let v = std::mem::take(&mut r.th[c].token_view);
            r.th[c].view.join(&v);
        }
        r.th[c].awake = Some(r.ev());
        r.line_look();
        r.logf(|| "unparked".into());
    })
}

#[no_mangle]
fn __tbsim_unpark(t: u64) {
    let r = rt();
    if !r.active {
        return;
    }
    hook!({
        r.point(PT_WAKE);
        r.tick();
        let t = t as usize;
        let c = r.cur;
        if t == 0 || t >= r.th.len() {
            return;
        }
        r.c.unparks += 1;
        r.logf(|| format!("unpark T{}", t));
        r.line_wake(t);
        let v = r.th[c].view.clone();
        r.th[t].token = true;
        r.th[t].token_view.join(&v);
        if r.th[t].state == TState::Blocked(Block::Park) {
            r.th[t].state = TState::Run;
        }
    })
}

#[no_mangle]
fn __tbsim_now() -> u64 {
    let r = rt();
    if r.active {
        let (c, now) = (r.cur, r.now);
        let th = &mut r.th[c];
        th.last_now = now;
        if let Some(d) = th.op_timeout.take() {
            th.op_deadline = Some(now.saturating_add(d));
        }
    }
    r.now
}

#[no_mangle]
fn __tbsim_panicking() -> bool {
    let r = rt();
    r.active && r.th[r.cur].panicking
}

/// Asked by each push: set by the scenario's setup for one call.
#[no_mangle]
fn __tbsim_preset() -> Option<usize> {
    rt().preset.take()
}

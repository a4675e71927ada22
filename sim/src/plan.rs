//! What a simulated run does: flavour, capacity, threads and their operations,
//! and the scheduling and fault parameters. A plan is generated from a seed and
//! a focus (the property under check), and can be written to and read from a
//! replay file.
use crate::rt::{Rng, SchedCfg};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Scen {
    /// Senders and one receiver on a channel.
    Channel,
    /// Producers and consumers on a queue.
    Queue,
    /// Threads racing to split a static channel.
    Split,
    /// Collections with the capacity-retaining recycling policy.
    Coll,
    /// A panic inside the recycling policy itself (known finding).
    PolicyPanic,
}

pub const ASYNC_DYN: u8 = 0;
pub const ASYNC_STATIC: u8 = 1;
pub const BLOCK_DYN: u8 = 2;
pub const BLOCK_STATIC: u8 = 3;
pub const TB_DYN: u8 = 4;
pub const TB_STATIC: u8 = 5;

pub fn is_static(f: u8) -> bool {
    f == ASYNC_STATIC || f == BLOCK_STATIC || f == TB_STATIC
}
pub fn is_blocking(f: u8) -> bool {
    f == BLOCK_DYN || f == BLOCK_STATIC
}

// Operations.
pub const TRY_SEND: u8 = 1;
pub const TRY_SEND_REF: u8 = 2;
pub const SEND: u8 = 3;
pub const SEND_REF: u8 = 4;
pub const CLONE: u8 = 5;
pub const DROP_HANDLE: u8 = 6;
pub const SPARE: u8 = 7;
pub const FAN: u8 = 8;
pub const TRY_RECV: u8 = 11;
pub const TRY_RECV_REF: u8 = 12;
pub const RECV: u8 = 13;
pub const RECV_REF: u8 = 14;
pub const IS_CLOSED: u8 = 15;
pub const POLL: u8 = 16;
pub const POLL_REF: u8 = 17;
pub const NEXT: u8 = 18;
pub const DRAIN: u8 = 19;
pub const PUSH: u8 = 21;
pub const PUSH_REF: u8 = 22;
pub const PUSH_WITH: u8 = 23;
pub const POP: u8 = 24;
pub const POP_REF: u8 = 25;
pub const POP_WITH: u8 = 26;
pub const LEN: u8 = 27;
pub const REMAINING: u8 = 28;
pub const IS_EMPTY: u8 = 29;
pub const FMT: u8 = 30;
pub const FILL: u8 = 31;
pub const EMPTY: u8 = 32;
pub const ZERO: u8 = 33;
pub const RELEASE: u8 = 40;
pub const PAUSE: u8 = 41;
pub const PANIC: u8 = 42;
pub const SPLIT: u8 = 43;

pub fn op_name(k: u8) -> &'static str {
    match k {
        TRY_SEND => "try_send",
        TRY_SEND_REF => "try_send_ref",
        SEND => "send",
        SEND_REF => "send_ref",
        CLONE => "clone-handle",
        DROP_HANDLE => "drop-handle",
        SPARE => "sender-for-wakers",
        FAN => "many sends at once",
        TRY_RECV => "try_recv",
        TRY_RECV_REF => "try_recv_ref",
        RECV => "recv",
        RECV_REF => "recv_ref",
        IS_CLOSED => "is_closed",
        POLL => "poll_recv",
        POLL_REF => "poll_recv_ref",
        NEXT => "iterator-next",
        DRAIN => "drain",
        PUSH => "push",
        PUSH_REF => "push_ref",
        PUSH_WITH => "push_with",
        POP => "pop",
        POP_REF => "pop_ref",
        POP_WITH => "pop_with",
        LEN => "len",
        REMAINING => "remaining",
        IS_EMPTY => "is_empty",
        FMT => "format",
        ZERO => "construct with capacity 0",
        FILL => "fill",
        EMPTY => "empty",
        RELEASE => "release-ref",
        PAUSE => "pause",
        PANIC => "panic",
        SPLIT => "try_split",
        _ => "?",
    }
}

// Ways to wait.
pub const W_PLAIN: u8 = 0;
pub const W_TIMED: u8 = 1;
pub const W_UNPOLLED: u8 = 2;
pub const W_POLLS: u8 = 3;
pub const W_AFTER_WAKE: u8 = 4;

// Flags.
pub const F_HOLD: u8 = 1;
pub const F_PANIC: u8 = 2;
pub const F_WAKER: u8 = 4;
pub const F_SLOW: u8 = 8;
/// The task's executor polls it inside `wake`.
pub const F_INLINE: u8 = 16;
/// The waker panics when it is cloned.
pub const F_CLONE: u8 = 32;
/// The task also polls, and drops, a second future for the same thing.
pub const F_PAIR: u8 = 64;

pub const DUR: [u64; 10] = [
    0,
    1,
    400,
    2_000,
    15_000,
    1_000_000,
    5_000_000_000,
    3_600_000_000_000,
    1 << 62,
    u64::MAX,
];
/// How many sends one task awaits at once.
pub const FANS: [usize; 6] = [2, 3, 5, 9, 17, 34];

/// Durations from here on are as good as forever.
pub const DUR_FOREVER: u8 = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Op {
    pub k: u8,
    pub w: u8,
    pub p: u8,
    pub f: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    Tx,
    Rx,
    Q,
    Other,
}

#[derive(Clone, Debug)]
pub struct Thread {
    pub role: Role,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub scen: Scen,
    pub flavour: u8,
    pub cap: u16,
    /// 0: the default policy, 1: the simulated users' own policy.
    pub rec: u8,
    pub weak: bool,
    /// Laps left before the position counters overflow (0: a new queue).
    pub wrap: u8,
    /// Collection type and limits for `Scen::Coll`.
    pub x: [u32; 3],
    pub threads: Vec<Thread>,
    pub sched: SchedCfg,
}

pub const STATIC_CAPS: [u16; 9] = [1, 2, 3, 4, 5, 7, 8, 16, 33];

/// How the generator leans for one property.
#[derive(Clone, Debug)]
struct Lean {
    queue: u32,
    split: u32,
    coll: u32,
    blocking: u32,
    weak: u32,
    hold: u32,
    byref: u32,
    waiting_tx: u32,
    cancel_tx: u32,
    cancel_rx: u32,
    rx_drop: u32,
    panic: u32,
    clones: u32,
    is_closed: u32,
    solo: u32,
    bhold: u32,
    len: u32,
    rec: u32,
    spur: u32,
    pause: u32,
    wrap: u32,
    reent: u32,
}

fn lean(prop: &str) -> Lean {
    // per 1024
    let mut l = Lean {
        queue: 250,
        split: 8,
        coll: 8,
        blocking: 512,
        weak: 350,
        hold: 200,
        byref: 450,
        waiting_tx: 600,
        cancel_tx: 200,
        cancel_rx: 200,
        rx_drop: 200,
        panic: 40,
        clones: 100,
        is_closed: 60,
        solo: 60,
        bhold: 100,
        len: 60,
        rec: 400,
        spur: 200,
        pause: 100,
        wrap: 100,
        reent: 60,
    };
    match prop {
        "C01" => {
            l.queue = 60;
            l.rx_drop = 100;
        }
        "C02" => {
            l.queue = 40;
            l.hold = 350;
            l.byref = 600;
        }
        "C03" => {
            l.queue = 980;
        }
        "C04" => {
            l.queue = 600;
            l.len = 300;
            l.waiting_tx = 300;
        }
        "C05" => {
            l.queue = 450;
            l.weak = 800;
            l.byref = 700;
            l.hold = 300;
        }
        "C06" => {
            l.queue = 0;
            l.cancel_rx = 350;
            l.rx_drop = 60;
            l.waiting_tx = 450;
            l.weak = 450;
        }
        "C07" => {
            l.queue = 0;
            l.waiting_tx = 950;
            l.cancel_tx = 350;
            l.rx_drop = 150;
        }
        "C21" => {
            l.queue = 0;
            l.waiting_tx = 980;
            l.cancel_tx = 250;
            l.rx_drop = 60;
            l.panic = 10;
            l.wrap = 40;
        }
        "C08" => {
            l.queue = 0;
            l.clones = 300;
            l.is_closed = 300;
            l.rx_drop = 40;
            l.panic = 150;
        }
        "C09" => {
            l.queue = 0;
            l.rx_drop = 800;
            l.waiting_tx = 700;
            l.panic = 120;
        }
        "C10" => {
            l.queue = 0;
            l.cancel_tx = 600;
            l.cancel_rx = 500;
            l.waiting_tx = 900;
        }
        "C11" => {
            l.queue = 0;
            l.blocking = 940;
            l.cancel_tx = 700;
            l.cancel_rx = 700;
            l.waiting_tx = 850;
            l.spur = 400;
        }
        "C12" => {
            l.queue = 350;
            l.rx_drop = 450;
            l.panic = 100;
            l.rec = 512;
            l.cancel_tx = 300;
        }
        "C13" => {
            l.queue = 450;
            l.byref = 800;
            l.rec = 600;
            l.coll = 200;
        }
        "C14" => {
            l.queue = 150;
            l.waiting_tx = 800;
            l.cancel_tx = 300;
            l.clones = 250;
        }
        "C15" => {
            l.queue = 500;
            l.solo = 1000;
            l.hold = 350;
            l.byref = 700;
            l.waiting_tx = 350;
            l.bhold = 200;
        }
        "C16" => {
            l.panic = 500;
            l.queue = 300;
            l.byref = 600;
        }
        "C17" => {
            l.split = 900;
        }
        "C18" => {
            l.queue = 0;
            l.bhold = 800;
            l.waiting_tx = 850;
            l.hold = 350;
            l.byref = 600;
            l.clones = 40;
        }
        "C20" => {
            l.reent = 1024;
            l.queue = 0;
            l.blocking = 0;
            l.waiting_tx = 800;
            l.spur = 500;
        }
        "C19" => {
            l.wrap = 1024;
            l.queue = 450;
            l.len = 150;
        }
        _ => {}
    }
    l
}

fn wait_spec(r: &mut Rng, cancel: u32, op: &mut Op) {
    if r.chance(cancel) {
        op.w = match r.below(8) {
            0 => W_UNPOLLED,
            1 | 2 => W_POLLS,
            3 | 4 => W_AFTER_WAKE,
            _ => W_TIMED,
        };
        op.p = match op.w {
            W_POLLS => 1 + r.below(3) as u8,
            _ => {
                let n = if r.chance(64) { DUR.len() as u64 } else { 8 };
                r.below(n) as u8
            }
        };
    }
    if r.chance(200) {
        op.f |= F_WAKER;
    }
}

pub fn generate(seed: u64, prop: &str, std: bool) -> Plan {
    let mut r = Rng::new(seed ^ 0x706c_616e_0000_0001);
    let general = r.chance(200);
    let l = if general { lean("") } else { lean(prop) };
    let scen = if r.chance(l.split) {
        Scen::Split
    } else if r.chance(l.coll) {
        Scen::Coll
    } else if r.chance(l.queue) {
        Scen::Queue
    } else {
        Scen::Channel
    };
    let blocking = std && r.chance(l.blocking);
    let stat = r.chance(320);
    let flavour = match scen {
        Scen::Queue | Scen::Coll => {
            if stat {
                TB_STATIC
            } else {
                TB_DYN
            }
        }
        _ => match (blocking, stat || scen == Scen::Split) {
            (false, false) => ASYNC_DYN,
            (false, true) => ASYNC_STATIC,
            (true, false) => BLOCK_DYN,
            (true, true) => BLOCK_STATIC,
        },
    };
    // a few runs use larger rings, filled and emptied in bulk
    let big = r.chance(25) && matches!(scen, Scen::Channel | Scen::Queue);
    let cap = match (big, is_static(flavour)) {
        (true, true) => *r.pick(&[16u16, 16, 33, 33, 257]),
        (true, false) => *r.pick(&[15u16, 16, 17, 31, 32, 33, 64, 100, 128, 256, 300]),
        (false, true) => *r.pick(&[1u16, 1, 2, 2, 2, 3, 3, 4, 5, 7, 8]),
        (false, false) => *r.pick(&[1u16, 1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9]),
    };
    let weak = r.chance(l.weak);
    let rec = (r.chance(l.rec) && (!is_static(flavour) || flavour == TB_STATIC)) as u8;
    let rec = if rec == 1 && r.chance(200) { 2 } else { rec };
    let mut plan = Plan {
        scen,
        flavour,
        cap,
        rec,
        weak,
        wrap: 0,
        x: [0; 3],
        threads: vec![],
        sched: SchedCfg::default(),
    };
    // some runs are long: many laps around the ring
    let long = r.chance(100);
    let budget = if long { 40 } else { 4 + r.below(14) as usize };
    match scen {
        Scen::Channel => gen_channel(&mut r, &l, &mut plan, budget, blocking),
        Scen::Queue => gen_queue(&mut r, &l, &mut plan, budget),
        Scen::Split => gen_split(&mut r, &mut plan),
        Scen::Coll => gen_coll(&mut r, &mut plan, std),
        Scen::PolicyPanic => unreachable!(),
    }
    let bulk = if big { 500 } else { 20 };
    for t in plan.threads.iter_mut() {
        let (k, p) = match t.role {
            Role::Tx => (FILL, 1024),
            Role::Rx => (EMPTY, 1024),
            Role::Q => (if r.chance(512) { FILL } else { EMPTY }, 1024),
            Role::Other => (FILL, 0),
        };
        let end = t.ops.iter().position(|o| o.k == DRAIN || o.k == PANIC).unwrap_or(t.ops.len());
        if p > 0 && r.chance(bulk) {
            let at = r.below(end as u64 + 1) as usize;
            t.ops.insert(at, Op { k, p: r.below(2) as u8, ..Op::default() });
        }
        if p > 0 && r.chance(15) {
            let at = r.below(end as u64 + 1) as usize;
            t.ops.insert(at, Op { k: FMT, ..Op::default() });
        }
        if p > 0 && r.chance(4) {
            t.ops.insert(0, Op { k: ZERO, p: r.below(6) as u8, ..Op::default() });
        }
    }
    let mut nops: usize = plan.threads.iter().map(|t| t.ops.len()).sum();
    nops += plan.threads.iter().flat_map(|t| &t.ops).filter(|o| o.k == FILL || o.k == EMPTY).count() * 2 * plan.cap as usize;
    nops += plan.threads.iter().flat_map(|t| &t.ops).filter(|o| o.k == FAN).map(|o| 3 * FANS[o.p as usize]).sum::<usize>();
    gen_sched(&mut r, &l, &mut plan, nops, blocking);
    if scen != Scen::Split && r.chance(l.wrap) {
        plan.wrap = *r.pick(&[1u8, 1, 1, 2, 2, 3, 5]);
    }
    plan
}

fn gen_sched(r: &mut Rng, l: &Lean, plan: &mut Plan, nops: usize, blocking: bool) {
    let s = &mut plan.sched;
    s.strategy = if r.chance(350) { 1 } else { 0 };
    s.p_switch = *r.pick(&[15, 40, 80, 150, 250, 400, 700]);
    if s.strategy == 1 {
        let d = r.below(6);
        let span = (nops as u64 * 25).max(60);
        for _ in 0..d {
            s.pct.push(1 + r.below(span));
        }
    }
    if r.chance(l.spur) {
        s.p_spur = *r.pick(&[8, 40, 120]);
    }
    if blocking && r.chance(250) {
        s.p_clock = *r.pick(&[6, 30, 100]);
    }
    if r.chance(l.solo) {
        s.p_solo = *r.pick(&[10, 60, 250]);
    }
    if r.chance(l.bhold) {
        s.p_hold = *r.pick(&[40, 150, 400]);
    }
    if plan.weak {
        s.p_stale = *r.pick(&[30, 120, 300, 500, 900]);
    }
    if r.chance(300) {
        s.p_weak = *r.pick(&[40, 150, 400]);
    }
    s.fair_after = 4000 + 60 * nops as u64;
    s.cap = s.fair_after + 60_000 + 2_000 * nops as u64;
}

fn gen_channel(r: &mut Rng, l: &Lean, plan: &mut Plan, budget: usize, blocking: bool) {
    let ntx = match r.below(10) {
        0 | 1 => 1,
        2..=5 => 2,
        6..=8 => 3,
        _ if r.chance(200) => 5 + r.below(5) as usize,
        _ => 4,
    };
    // a task that awaits many sends at once
    let fan = if !blocking && r.chance(40) { 300 } else { 0 };
    let panics = r.chance(l.panic);
    let per = (budget / (ntx + 1)).max(1);
    // a phase of this run's senders: mostly waiting, mostly trying, or mixed
    let waiting = if r.chance(l.waiting_tx) { 850 } else { 150 };
    let byref = if r.chance(l.byref) { 800 } else { 100 };
    let hold = if r.chance(l.hold) { 600 } else { 60 };
    let cancel = if r.chance(l.cancel_tx) { 500 } else { 0 };
    // executors that poll inside `wake`, wakers that use the channel
    let reent = !blocking && r.chance(l.reent);
    let inline = if reent { *r.pick(&[0u32, 300, 800]) } else { 0 };
    let spare = if reent { *r.pick(&[100u32, 400, 800]) } else { 0 };
    for _ in 0..ntx {
        let n = 1 + r.below(per as u64 + 2) as usize;
        let mut ops = vec![];
        if r.chance(l.pause) {
            ops.push(Op { k: PAUSE, p: r.below(6) as u8, ..Op::default() });
        }
        let spare_at = if reent && r.chance(spare) { r.below(n as u64) as usize } else { n };
        for i in 0..n {
            if i == spare_at {
                ops.push(Op { k: SPARE, p: r.below(2) as u8, ..Op::default() });
            }
            let mut op = Op::default();
            if r.chance(l.clones) {
                op.k = if r.chance(512) { CLONE } else { DROP_HANDLE };
                ops.push(op);
                continue;
            }
            if r.chance(l.pause / 2) {
                ops.push(Op { k: PAUSE, p: r.below(7) as u8, ..Op::default() });
            }
            if r.chance(hold / 3) {
                ops.push(Op { k: RELEASE, p: r.below(4) as u8, ..Op::default() });
            }
            if r.chance(fan) {
                let p = r.below(FANS.len() as u64) as u8;
                let w = if r.chance(cancel) { 1 + r.below(3) as u8 } else { W_PLAIN };
                let f = if r.chance(200) { F_WAKER } else { 0 };
                ops.push(Op { k: FAN, p, w, f });
                continue;
            }
            let w = r.chance(waiting);
            let b = r.chance(byref);
            op.k = match (w, b) {
                (false, false) => TRY_SEND,
                (false, true) => TRY_SEND_REF,
                (true, false) => SEND,
                (true, true) => SEND_REF,
            };
            if w {
                wait_spec(r, cancel, &mut op);
                if reent && r.chance(inline) {
                    op.f |= F_INLINE;
                }
                if reent && r.chance(400) {
                    op.f |= F_WAKER;
                }
                if panics && r.chance(150) {
                    op.f |= F_CLONE;
                }
            }
            if b && r.chance(hold) {
                op.f |= F_HOLD;
            }
            if b && r.chance(300) {
                op.f |= F_SLOW;
            }
            if b && panics && r.chance(250) {
                op.f |= F_PANIC;
            }
            ops.push(op);
        }
        if panics && r.chance(250) {
            let at = r.below(ops.len() as u64 + 1) as usize;
            ops.insert(at, Op { k: PANIC, ..Op::default() });
        }
        plan.threads.push(Thread { role: Role::Tx, ops });
    }
    // receiver
    let n = r.below(per as u64 + 3) as usize;
    let cancel = if r.chance(l.cancel_rx) { 500 } else { 0 };
    let try_heavy = r.chance(300);
    let pairs = !blocking && r.chance(150);
    let mut ops = vec![];
    if r.chance(l.pause * 2) {
        ops.push(Op { k: PAUSE, p: r.below(7) as u8, ..Op::default() });
    }
    for _ in 0..n {
        let mut op = Op::default();
        if r.chance(l.is_closed) {
            ops.push(Op { k: IS_CLOSED, ..op });
            continue;
        }
        if r.chance(l.pause / 2) {
            ops.push(Op { k: PAUSE, p: r.below(7) as u8, ..Op::default() });
        }
        if r.chance(hold / 3) {
            ops.push(Op { k: RELEASE, p: r.below(4) as u8, ..Op::default() });
        }
        let b = r.chance(byref);
        let x = r.below(10);
        op.k = if x < 2 || try_heavy && x < 7 {
            if b {
                TRY_RECV_REF
            } else {
                TRY_RECV
            }
        } else if x == 9 && !blocking {
            if b {
                POLL_REF
            } else {
                POLL
            }
        } else if x == 8 && blocking {
            NEXT
        } else if b {
            RECV_REF
        } else {
            RECV
        };
        if (op.k == POLL || op.k == POLL_REF) && r.chance(400) {
            op.w = W_UNPOLLED;
        }
        if op.k == RECV || op.k == RECV_REF || (op.k == POLL || op.k == POLL_REF) && op.w != W_UNPOLLED {
            wait_spec(r, cancel, &mut op);
            if reent && r.chance(inline) {
                op.f |= F_INLINE;
            }
            if panics && r.chance(150) {
                op.f |= F_CLONE;
            }
            if pairs && r.chance(500) {
                op.f |= F_PAIR;
            }
        } else if r.chance(200) {
            op.f |= F_WAKER;
        }
        let b = b || op.k == NEXT;
        if b && r.chance(hold) {
            op.f |= F_HOLD;
        }
        if b && r.chance(300) {
            op.f |= F_SLOW;
        }
        if b && panics && r.chance(200) {
            op.f |= F_PANIC;
        }
        ops.push(op);
    }
    if panics && r.chance(150) {
        ops.push(Op { k: PANIC, ..Op::default() });
    } else if !r.chance(l.rx_drop) {
        if r.chance(l.is_closed) {
            ops.push(Op { k: IS_CLOSED, ..Op::default() });
        }
        let mut f = if r.chance(200) { F_WAKER } else { 0 };
        if reent && r.chance(inline) {
            f |= F_INLINE;
        }
        ops.push(Op { k: DRAIN, p: r.below(5) as u8, f, ..Op::default() });
        if r.chance(512) {
            // after the close: everything keeps saying so
            for _ in 0..1 + r.below(3) {
                let k = *r.pick(&[TRY_RECV, TRY_RECV_REF, RECV, RECV_REF, IS_CLOSED]);
                let mut op = Op { k, ..Op::default() };
                if (k == RECV || k == RECV_REF) && r.chance(300) {
                    op.w = W_TIMED;
                    op.p = r.below(8) as u8;
                }
                ops.push(op);
            }
        }
    } else if r.chance(l.is_closed) {
        ops.push(Op { k: IS_CLOSED, ..Op::default() });
    }
    // the receiver may move to another thread on the way
    while ops.len() > 1 && r.chance(120) {
        let at = 1 + r.below(ops.len() as u64 - 1) as usize;
        let rest = ops.split_off(at);
        plan.threads.push(Thread { role: Role::Rx, ops });
        ops = rest;
        if plan.threads.len() >= 6 {
            break;
        }
    }
    plan.threads.push(Thread { role: Role::Rx, ops });
}

fn gen_queue(r: &mut Rng, l: &Lean, plan: &mut Plan, budget: usize) {
    let n = 2 + r.below(4) as usize;
    let panics = r.chance(l.panic);
    let byref = if r.chance(l.byref) { 800 } else { 200 };
    let hold = if r.chance(l.hold) { 600 } else { 60 };
    let lens = if r.chance(l.len * 2) { 250 } else { 20 };
    let per = (budget * 2 / n).max(2);
    for i in 0..n {
        // producers, consumers and mixed threads
        let bias = match r.below(3) {
            0 => 900,
            1 => 124,
            _ => 512,
        };
        let bias = if i == 0 {
            900
        } else if i == 1 {
            200
        } else {
            bias
        };
        let mut ops = vec![];
        if r.chance(l.pause) {
            ops.push(Op { k: PAUSE, p: r.below(6) as u8, ..Op::default() });
        }
        for _ in 0..1 + r.below(per as u64) {
            let mut op = Op::default();
            if r.chance(lens) {
                op.k = *r.pick(&[LEN, REMAINING, IS_EMPTY]);
                ops.push(op);
                continue;
            }
            if r.chance(hold / 3) {
                ops.push(Op { k: RELEASE, p: r.below(4) as u8, ..Op::default() });
            }
            let b = r.chance(byref);
            op.k = if r.chance(bias) {
                if !b {
                    PUSH
                } else if r.chance(700) {
                    PUSH_REF
                } else {
                    PUSH_WITH
                }
            } else if !b {
                POP
            } else if r.chance(700) {
                POP_REF
            } else {
                POP_WITH
            };
            if (op.k == PUSH_REF || op.k == POP_REF) && r.chance(hold) {
                op.f |= F_HOLD;
            }
            if b && r.chance(300) {
                op.f |= F_SLOW;
            }
            if b && panics && r.chance(250) {
                op.f |= F_PANIC;
            }
            ops.push(op);
        }
        if panics && r.chance(200) {
            let at = r.below(ops.len() as u64 + 1) as usize;
            ops.insert(at, Op { k: PANIC, ..Op::default() });
        }
        plan.threads.push(Thread { role: Role::Q, ops });
    }
}

fn gen_split(r: &mut Rng, plan: &mut Plan) {
    let n = 2 + r.below(4) as usize;
    for _ in 0..n {
        let mut ops = vec![];
        if r.chance(150) {
            ops.push(Op { k: PAUSE, p: r.below(4) as u8, ..Op::default() });
        }
        for _ in 0..1 + r.below(3) {
            // p: how many messages the winner passes through its pair
            ops.push(Op { k: SPLIT, p: r.below(12) as u8, f: r.below(2) as u8 | if r.chance(160) { F_PANIC } else { 0 }, ..Op::default() });
        }
        plan.threads.push(Thread { role: Role::Other, ops });
    }
}

fn gen_coll(r: &mut Rng, plan: &mut Plan, std: bool) {
    let kinds = if std { 6 } else { 4 };
    plan.x = [
        r.below(kinds) as u32,
        *r.pick(&[0u32, 0, 3, 8, 20]),
        *r.pick(&[0u32, 4, 16, 40, u32::MAX]),
    ];
    let n = 2 + r.below(2) as usize;
    for i in 0..n {
        let mut ops = vec![];
        for _ in 0..3 + r.below(10) {
            let push = if i == 0 { r.chance(850) } else { r.chance(250) };
            ops.push(Op {
                k: if push {
                    PUSH_REF
                } else if r.chance(900) {
                    POP_REF
                } else {
                    POP
                },
                p: r.below(64) as u8,
                ..Op::default()
            });
        }
        plan.threads.push(Thread { role: Role::Other, ops });
    }
}

// ---- text form ----

impl Plan {
    pub fn kind_name(&self) -> String {
        let s = match self.scen {
            Scen::Channel => "channel",
            Scen::Queue => "queue",
            Scen::Split => "split",
            Scen::Coll => "collections",
            Scen::PolicyPanic => "policy-panic",
        };
        let f = ["async", "async-static", "blocking", "blocking-static", "dynamic", "static"][self.flavour as usize % 6];
        format!("{}/{}{}", s, f, if self.weak { "/weak-memory" } else { "" })
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += &format!(
            "plan scen={} flavour={} cap={} rec={} weak={} wrap={} x={},{},{}\n",
            match self.scen {
                Scen::Channel => "channel",
                Scen::Queue => "queue",
                Scen::Split => "split",
                Scen::Coll => "coll",
                Scen::PolicyPanic => "policy-panic",
            },
            self.flavour, self.cap, self.rec, self.weak as u8, self.wrap, self.x[0], self.x[1], self.x[2]
        );
        let c = &self.sched;
        let pct: Vec<String> = c.pct.iter().map(|x| x.to_string()).collect();
        s += &format!(
            "sched strategy={} p_switch={} p_spur={} p_clock={} p_solo={} p_hold={} p_stale={} p_weak={} fair_after={} cap={} pct={}\n",
            c.strategy, c.p_switch, c.p_spur, c.p_clock, c.p_solo, c.p_hold, c.p_stale, c.p_weak, c.fair_after, c.cap,
            pct.join(",")
        );
        for t in &self.threads {
            let ops: Vec<String> = t.ops.iter().map(|o| format!("{}:{}:{}:{}", o.k, o.w, o.p, o.f)).collect();
            let names: Vec<String> = t.ops.iter().map(|o| op_name(o.k).to_string()).collect();
            s += &format!(
                "thread {} {} # {}\n",
                match t.role {
                    Role::Tx => "tx",
                    Role::Rx => "rx",
                    Role::Q => "q",
                    Role::Other => "other",
                },
                ops.join(" "),
                names.join(" ")
            );
        }
        s
    }

    pub fn from_text(text: &str) -> Option<Plan> {
        let mut p = Plan {
            scen: Scen::Channel,
            flavour: 0,
            cap: 1,
            rec: 0,
            weak: false,
            wrap: 0,
            x: [0; 3],
            threads: vec![],
            sched: SchedCfg::default(),
        };
        let mut seen = false;
        for line in text.lines() {
            let line = line.split('#').next().unwrap().trim();
            let mut it = line.split_whitespace();
            match it.next() {
                Some("plan") => {
                    seen = true;
                    for kv in it {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "scen" => {
                                p.scen = match v {
                                    "channel" => Scen::Channel,
                                    "queue" => Scen::Queue,
                                    "split" => Scen::Split,
                                    "coll" => Scen::Coll,
                                    _ => Scen::PolicyPanic,
                                }
                            }
                            "flavour" => p.flavour = v.parse().ok()?,
                            "cap" => p.cap = v.parse().ok()?,
                            "rec" => p.rec = v.parse().ok()?,
                            "weak" => p.weak = v == "1",
                            "wrap" => p.wrap = v.parse().ok()?,
                            "x" => {
                                for (i, y) in v.split(',').enumerate() {
                                    p.x[i] = y.parse().ok()?;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Some("sched") => {
                    for kv in it {
                        let (k, v) = kv.split_once('=')?;
                        let n = || v.parse::<u64>().ok();
                        let c = &mut p.sched;
                        match k {
                            "strategy" => c.strategy = n()? as u8,
                            "p_switch" => c.p_switch = n()? as u32,
                            "p_spur" => c.p_spur = n()? as u32,
                            "p_clock" => c.p_clock = n()? as u32,
                            "p_solo" => c.p_solo = n()? as u32,
                            "p_hold" => c.p_hold = n()? as u32,
                            "p_stale" => c.p_stale = n()? as u32,
                            "p_weak" => c.p_weak = n()? as u32,
                            "fair_after" => c.fair_after = n()?,
                            "cap" => c.cap = n()?,
                            "pct" => {
                                c.pct = v.split(',').filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
                            }
                            _ => {}
                        }
                    }
                }
                Some("thread") => {
                    let role = match it.next()? {
                        "tx" => Role::Tx,
                        "rx" => Role::Rx,
                        "q" => Role::Q,
                        _ => Role::Other,
                    };
                    let mut ops = vec![];
                    for o in it {
                        let v: Vec<u8> = o.split(':').filter_map(|x| x.parse().ok()).collect();
                        if v.len() != 4 {
                            return None;
                        }
                        ops.push(Op { k: v[0], w: v[1], p: v[2], f: v[3] });
                    }
                    p.threads.push(Thread { role, ops });
                }
                _ => {}
            }
        }
        if seen {
            Some(p)
        } else {
            None
        }
    }
}

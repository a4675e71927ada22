//! Shrinks a failing run: fewer threads and operations first (searching a
//! schedule for each smaller plan), then fewer scheduling and fault decisions.
//! Every candidate runs in a forked child, so crashes and hangs can be
//! minimised like any other failure.
use crate::plan::*;
use crate::replay::{load, Replay};
use crate::rt::{rt, Rng};
use crate::{exec, plan, Args, STD};
use std::time::{Duration, Instant};

const SHM: usize = 1 << 22;
const CLS: usize = 64;
const MSG: usize = 2048;
const TR: usize = CLS + MSG + 64;

struct Hit {
    class: String,
    msg: String,
    hash: u64,
    seed: u64,
    trace: Vec<u8>,
}

struct Lab {
    shm: *mut u8,
}

impl Lab {
    fn new() -> Lab {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHM,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        Lab { shm: p as *mut u8 }
    }

    unsafe fn put(&self, at: usize, max: usize, s: &str) {
        let n = s.len().min(max - 1);
        std::ptr::copy_nonoverlapping(s.as_ptr(), self.shm.add(at), n);
        *self.shm.add(at + n) = 0;
    }
    unsafe fn text(&self, at: usize, max: usize) -> String {
        let s = std::slice::from_raw_parts(self.shm.add(at), max);
        let n = s.iter().position(|b| *b == 0).unwrap_or(max);
        String::from_utf8_lossy(&s[..n]).into_owned()
    }

    /// Runs the plan with a script, or with up to `n` seeds, in a child.
    fn try_run(&self, pl: &Plan, seeds: &[u64], script: Option<&[u8]>, want: &str) -> Option<Hit> {
        unsafe {
            *self.shm = 0;
            *(self.shm.add(CLS + MSG) as *mut u64) = 0; // hash
            *(self.shm.add(CLS + MSG + 8) as *mut u64) = 0; // seed
            *(self.shm.add(TR) as *mut u64) = 0; // trace length
            let pid = libc::fork();
            if pid == 0 {
                libc::alarm(if want == "hang" { 6 } else { 20 });
                let devnull = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(devnull, 2);
                rt().sink = self.shm.add(TR);
                rt().sink_cap = SHM - TR - 64;
                for &s in seeds {
                    *(self.shm.add(CLS + MSG + 8) as *mut u64) = s;
                    *(self.shm.add(TR) as *mut u64) = 0;
                    let out = exec::run(pl, s, script.map(|x| x.to_vec()), false);
                    *(self.shm.add(CLS + MSG) as *mut u64) = out.hash;
                    if let Some(v) = out.viol.iter().find(|v| v.class == want) {
                        self.put(CLS, MSG, &v.msg);
                        self.put(0, CLS, v.class);
                        libc::_exit(1);
                    }
                }
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let class = if libc::WIFSIGNALED(st) {
                if libc::WTERMSIG(st) == libc::SIGALRM {
                    "hang".to_string()
                } else {
                    self.put(CLS, MSG, &format!("the process died with signal {}", libc::WTERMSIG(st)));
                    "crash".to_string()
                }
            } else {
                self.text(0, CLS)
            };
            if class != want {
                return None;
            }
            let n = *(self.shm.add(TR) as *mut u64) as usize;
            let trace = std::slice::from_raw_parts(self.shm.add(TR + 8), n).to_vec();
            Some(Hit {
                class,
                msg: self.text(CLS, MSG),
                hash: *(self.shm.add(CLS + MSG) as *mut u64),
                seed: *(self.shm.add(CLS + MSG + 8) as *mut u64),
                trace,
            })
        }
    }
}

fn smaller(p: &Plan) -> Vec<Plan> {
    let mut v = vec![];
    for t in 0..p.threads.len() {
        if p.threads.len() > 1 {
            let mut q = p.clone();
            q.threads.remove(t);
            v.push(q);
        }
    }
    for t in 0..p.threads.len() {
        let n = p.threads[t].ops.len();
        if n > 2 {
            let mut q = p.clone();
            q.threads[t].ops.truncate(n / 2);
            v.push(q);
            let mut q = p.clone();
            q.threads[t].ops.drain(..n / 2);
            v.push(q);
        }
        for i in (0..n).rev() {
            let mut q = p.clone();
            q.threads[t].ops.remove(i);
            v.push(q);
        }
    }
    if p.weak {
        let mut q = p.clone();
        q.weak = false;
        q.sched.p_stale = 0;
        v.push(q);
    }
    for w in 0..p.wrap.min(2) {
        let mut q = p.clone();
        q.wrap = w;
        v.push(q);
    }
    if p.rec != 0 {
        let mut q = p.clone();
        q.rec = 0;
        v.push(q);
    }
    for c in (1..p.cap.min(11)).chain([16, 33, 64].into_iter().filter(|c| *c < p.cap)) {
        if !is_static(p.flavour) || STATIC_CAPS.contains(&c) {
            let mut q = p.clone();
            q.cap = c;
            v.push(q);
        }
    }
    for t in 0..p.threads.len() {
        for i in 0..p.threads[t].ops.len() {
            let o = p.threads[t].ops[i];
            for alt in [
                Op { w: 0, p: 0, f: 0, ..o },
                Op { f: 0, ..o },
                Op { f: o.f & !F_WAKER, ..o },
                Op { f: o.f & !F_SLOW, ..o },
                Op { f: o.f & !F_CLONE, ..o },
                Op { f: o.f & !F_PAIR, ..o },
                Op { w: 0, p: 0, ..o },
                Op { p: if o.k == FAN { o.p.saturating_sub(1) } else { o.p }, ..o },
            ] {
                if alt != o && p.scen != Scen::Coll && !(o.k == DRAIN && alt.p != o.p) {
                    let mut q = p.clone();
                    q.threads[t].ops[i] = alt;
                    v.push(q);
                }
            }
        }
    }
    for k in 0..5 {
        let mut q = p.clone();
        let s = &mut q.sched;
        let f = match k {
            0 => &mut s.p_spur,
            1 => &mut s.p_clock,
            2 => &mut s.p_solo,
            3 => &mut s.p_hold,
            _ => &mut s.p_weak,
        };
        if *f != 0 {
            *f = 0;
            v.push(q);
        }
    }
    v
}

pub fn minimise(a: &Args) -> i32 {
    let secs = a.num("--secs", 20);
    let out = a.get("--out").expect("--out");
    let lab = Lab::new();
    let mut cur = match a.get("--in") {
        Some(f) => match load(f) {
            Some(r) => r,
            None => {
                eprintln!("cannot read {}", f);
                return 2;
            }
        },
        None => {
            let seed = a.num("--seed", 1);
            let prop = a.get("--prop").unwrap_or("").to_string();
            Replay {
                class: a.get("--class").unwrap_or("crash").into(),
                msg: String::new(),
                seed,
                hash: 0,
                plan: plan::generate(seed, &prop, STD),
                prop,
                script: None,
            }
        }
    };
    let want = cur.class.clone();
    let Some(h) = lab.try_run(&cur.plan, &[cur.seed], cur.script.as_deref(), &want) else {
        println!("{{\"reproduced\":false}}");
        return 3;
    };
    cur.msg = h.msg.clone();
    cur.hash = h.hash;
    cur.script = Some(h.trace);
    let orig = (cur.plan.threads.len(), ops(&cur.plan), nz(cur.script.as_ref().unwrap()));
    let t0 = Instant::now();
    let end = t0 + Duration::from_secs(secs);
    let mid = t0 + Duration::from_secs(secs * 6 / 10);
    let mut rng = Rng::new(cur.seed ^ 0x4d494e);
    let mut tries = 0u64;
    if want != "hang" {
        'again: loop {
            for q in smaller(&cur.plan) {
                if Instant::now() > mid {
                    break 'again;
                }
                tries += 1;
                // the same decisions may still do it
                let mut h = lab.try_run(&q, &[cur.seed], cur.script.as_deref(), &want);
                if h.is_none() {
                    let seeds: Vec<u64> = (0..300).map(|_| rng.next()).collect();
                    h = lab.try_run(&q, &seeds, None, &want);
                }
                if let Some(h) = h {
                    cur.plan = q;
                    cur.seed = h.seed;
                    cur.msg = h.msg;
                    cur.hash = h.hash;
                    cur.script = Some(h.trace);
                    continue 'again;
                }
            }
            break;
        }
        // decisions
        let mut script = cur.script.clone().unwrap();
        let mut chunk = (script.len() / 2).max(1);
        while chunk >= 1 && Instant::now() < end {
            let mut i = 0;
            let mut changed = false;
            while i < script.len() && Instant::now() < end {
                let j = (i + chunk).min(script.len());
                if script[i..j].iter().any(|x| *x != 0) {
                    let mut s = script.clone();
                    s[i..j].iter_mut().for_each(|x| *x = 0);
                    while s.last() == Some(&0) {
                        s.pop();
                    }
                    tries += 1;
                    if let Some(h) = lab.try_run(&cur.plan, &[cur.seed], Some(&s), &want) {
                        script = s;
                        cur.msg = h.msg;
                        cur.hash = h.hash;
                        changed = true;
                    }
                }
                i = j;
            }
            if chunk == 1 && !changed {
                break;
            }
            chunk = if chunk == 1 { 1 } else { chunk / 2 };
        }
        cur.script = Some(script);
    }
    // the final word: exactly this file, run once more, with the event log
    let final_hit = lab.try_run(&cur.plan, &[cur.seed], cur.script.as_deref(), &want);
    let ok = final_hit.is_some();
    if let Some(h) = final_hit {
        cur.hash = h.hash;
        cur.msg = h.msg;
        debug_assert_eq!(h.class, want);
    }
    let log = if want == "crash" || want == "hang" {
        None
    } else {
        let o = exec::run(&cur.plan, cur.seed, cur.script.clone(), true);
        o.log.map(|mut l| {
            if l.len() > 4000 {
                let tail = l.split_off(l.len() - 1000);
                l.truncate(3000);
                l.push("...".into());
                l.extend(tail);
            }
            l
        })
    };
    std::fs::write(out, cur.to_text(log.as_deref())).expect("write");
    println!(
        "{{\"reproduced\":{},\"class\":{},\"msg\":{},\"threads\":{},\"ops\":{},\"decisions\":{},\"from\":[{},{},{}],\"tries\":{},\"secs\":{:.1}}}",
        ok,
        crate::json_str(&want),
        crate::json_str(&cur.msg),
        cur.plan.threads.len(),
        ops(&cur.plan),
        nz(cur.script.as_ref().unwrap()),
        orig.0, orig.1, orig.2,
        tries,
        t0.elapsed().as_secs_f64()
    );
    if ok {
        0
    } else {
        3
    }
}

fn ops(p: &Plan) -> usize {
    p.threads.iter().map(|t| t.ops.len()).sum()
}
fn nz(s: &[u8]) -> usize {
    s.iter().filter(|x| **x != 0).count()
}

//! Deterministic simulation of thingbuf: search, replay and minimisation.
mod arena;
mod coll;
mod elem;
mod exec;
mod minimise;
mod oracle;
mod plan;
mod replay;
mod rt;

use std::collections::BTreeMap;
use std::io::Write;
use std::time::Instant;

#[global_allocator]
static A: arena::Arena = arena::Arena;

pub const STD: bool = cfg!(feature = "std");

pub fn init() {
    arena::init();
    rt::init();
    elem::init();
    oracle::init();
    exec::install_panic_hook();
}

pub fn map_file(path: &str, len: usize) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("open map");
    if f.metadata().unwrap().len() < len as u64 {
        f.set_len(len as u64).unwrap();
    }
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut u8
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += " ",
            c => o.push(c),
        }
    }
    o + "\""
}

fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

pub struct Args(Vec<String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

fn search(a: &Args) -> i32 {
    let prop = a.get("--prop").unwrap_or("").to_string();
    let start = a.num("--start", 1);
    let stride = a.num("--stride", 1);
    let max = a.num("--runs", u64::MAX);
    let secs = a.num("--secs", 10);
    let classes: Vec<&str> = a.get("--classes").map(|c| c.split(',').collect()).unwrap_or_default();
    let all = classes.is_empty();
    let prog = a.get("--progress").map(|p| map_file(p, 64) as *mut u64);
    const BITS: u64 = 1 << 27;
    let bits = a.get("--bitmap").map(|p| map_file(p, (BITS / 8) as usize));
    let t0 = Instant::now();
    let mut total = rt::Counters::default();
    let mut runs = 0u64;
    let mut new_hashes = 0u64;
    let mut aborted = 0u64;
    let mut nontrivial = 0u64;
    let mut replays = 0u64;
    let mut mismatches = 0u64;
    let mut max_steps = 0u64;
    let mut decisions = 0u64;
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut hit: Option<(u64, &'static str, String)> = None;
    let mut seed = start;
    while runs < max {
        if runs % 16 == 0 && t0.elapsed().as_secs() >= secs {
            break;
        }
        if let Some(p) = prog {
            unsafe {
                p.write_volatile(seed);
                p.add(1).write_volatile(runs);
                p.add(2).write_volatile(1);
            }
        }
        let pl = plan::generate(seed, &prop, STD);
        let out = exec::run(&pl, seed, None, false);
        runs += 1;
        total.add(&rt::rt().c);
        max_steps = max_steps.max(rt::rt().step);
        decisions += out.trace.len() as u64;
        *kinds.entry(pl.kind_name()).or_default() += 1;
        if rt::rt().c.switches >= 4 && (rt::rt().c.messages > 0 || !matches!(pl.scen, plan::Scen::Channel | plan::Scen::Queue)) {
            nontrivial += 1;
            let mut h = out.hash ^ seed_free_plan_hash(&pl);
            h ^= h >> 29;
            let fresh = match bits {
                Some(b) => {
                    let i = h % BITS;
                    let byte = unsafe { &*(b.add((i / 8) as usize) as *const std::sync::atomic::AtomicU8) };
                    byte.fetch_or(1 << (i % 8), std::sync::atomic::Ordering::Relaxed) & (1 << (i % 8)) == 0
                }
                None => false,
            };
            new_hashes += fresh as u64;
        }
        if samples.len() < 2 && runs >= 3 + 40 * samples.len() as u64 {
            samples.push(format!("seed {}\n{}({} scheduling decisions, {} steps)", seed, pl.to_text(), out.trace.len(), rt::rt().step));
        }
        if out.viol.is_empty() {
            if runs % 256 == 1 {
                let again = exec::run(&pl, seed ^ 0x5555, Some(out.trace.clone()), false);
                replays += 1;
                if again.hash != out.hash || !again.viol.is_empty() {
                    mismatches += 1;
                    samples.insert(0, format!("seed {} replayed differently", seed));
                }
            }
        } else {
            aborted += 1;
            for v in &out.viol {
                *seen.entry(v.class.to_string()).or_default() += 1;
            }
            let rel = relevant(&prop, &pl, &rt::rt().c);
            if let Some(v) = out.viol.iter().find(|v| (all || classes.contains(&v.class)) && (rel || v.class == "use-after-free")) {
                let r = replay::Replay {
                    prop: prop.clone(),
                    class: v.class.to_string(),
                    msg: v.msg.clone(),
                    seed,
                    hash: out.hash,
                    plan: pl.clone(),
                    script: Some(out.trace.clone()),
                };
                hit = Some((seed, v.class, v.msg.clone()));
                if let Some(o) = a.get("--out") {
                    std::fs::write(o, r.to_text(None)).expect("write replay");
                }
            }
            // a run that stopped half-way leaves suspended stacks, half-finished
            // panics and the like behind: go on in a new process
            seed += stride;
            break;
        }
        seed += stride;
    }
    if let Some(p) = prog {
        unsafe { p.add(2).write_volatile(2) };
    }
    let mut c: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in total.list() {
        c.insert(k.to_string(), v);
    }
    let s: Vec<String> = samples.iter().map(|x| json_str(x)).collect();
    let v = match &hit {
        Some((s, c, m)) => format!("{{\"seed\":{},\"class\":{},\"msg\":{}}}", s, json_str(c), json_str(m)),
        None => "null".into(),
    };
    println!(
        "{{\"next\":{},\"runs\":{},\"nontrivial\":{},\"distinct\":{},\"aborted\":{},\"replays\":{},\"mismatches\":{},\"max_steps\":{},\"decisions\":{},\"secs\":{:.3},\"counters\":{},\"kinds\":{},\"classes\":{},\"violation\":{},\"samples\":[{}]}}",
        seed, runs, nontrivial, new_hashes, aborted, replays, mismatches, max_steps, decisions,
        t0.elapsed().as_secs_f64(), json_map(&c), json_map(&kinds), json_map(&seen), v, s.join(",")
    );
    hit.is_some() as i32
}

/// Does what happened in this run fall under the property at all?
fn relevant(prop: &str, p: &plan::Plan, c: &rt::Counters) -> bool {
    use plan::Scen;
    match prop {
        "C03" => p.scen == Scen::Queue,
        "C19" => p.wrap > 0,
        "C20" => c.reentrant_wakes + c.inline_polls > 0,
        "C11" => is_timed(p),
        "C17" => p.scen == Scen::Split,
        "C16" => c.panics_in_closure + c.panics_in_ref + c.panics_with_handles + c.clone_panics > 0,
        "C10" => c.cancelled_after_wake + c.cancelled_unpolled + c.cancelled_waiting + c.timeouts_recv + c.timeouts_send > 0,
        _ => true,
    }
}

/// Is there any operation with a timeout?
fn is_timed(p: &plan::Plan) -> bool {
    plan::is_blocking(p.flavour) && p.threads.iter().any(|t| t.ops.iter().any(|o| o.w != plan::W_PLAIN))
}

fn seed_free_plan_hash(p: &plan::Plan) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut mix = |v: u64| h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3);
    mix(p.flavour as u64);
    mix(p.cap as u64);
    mix(p.rec as u64 | (p.wrap as u64) << 8);
    for t in &p.threads {
        mix(99);
        for o in &t.ops {
            mix(o.k as u64 | (o.w as u64) << 8 | (o.p as u64) << 16 | (o.f as u64) << 24);
        }
    }
    h
}

fn main() {
    let v: Vec<String> = std::env::args().skip(1).collect();
    let cmd = v.first().cloned().unwrap_or_default();
    let a = Args(v);
    init();
    let rc = match cmd.as_str() {
        "search" => search(&a),
        "replay" => replay::replay(&a),
        "minimise" => minimise::minimise(&a),
        "plan" => {
            let p = plan::generate(a.num("--seed", 1), a.get("--prop").unwrap_or(""), STD);
            print!("{}", p.to_text());
            0
        }
        _ => {
            eprintln!("usage: tbsim search|replay|minimise|plan ...");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(rc);
}

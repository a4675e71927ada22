//! Replay files: a plan, the scheduling and fault decisions, and what went wrong.
use crate::plan::Plan;
use crate::{exec, Args};

#[derive(Clone)]
pub struct Replay {
    pub prop: String,
    pub class: String,
    pub msg: String,
    pub seed: u64,
    pub hash: u64,
    pub plan: Plan,
    pub script: Option<Vec<u8>>,
}

impl Replay {
    pub fn to_text(&self, log: Option<&[String]>) -> String {
        let mut s = String::new();
        s += "# thingbuf simulation replay: tbsim replay FILE [--log]\n";
        s += &format!("build {}\n", if crate::STD { "std" } else { "nostd" });
        s += &format!("property {}\nclass {}\nmessage {}\nseed {}\nhash {:016x}\n", self.prop, self.class, self.msg.replace('\n', " "), self.seed, self.hash);
        s += &self.plan.to_text();
        if let Some(t) = &self.script {
            s += "decisions";
            let mut i = 0;
            while i < t.len() {
                let mut j = i;
                while j < t.len() && t[j] == t[i] {
                    j += 1;
                }
                if j - i == 1 {
                    s += &format!(" {}", t[i]);
                } else {
                    s += &format!(" {}x{}", t[i], j - i);
                }
                i = j;
            }
            s += "\n";
        }
        if let Some(l) = log {
            s += "# trace of the run:\n";
            // long runs end in repetition: the replay itself shows all of it
            let (head, tail) = if l.len() > 420 { (400, l.len() - 20) } else { (l.len(), l.len()) };
            for x in &l[..head] {
                s += &format!("#   {}\n", x);
            }
            if tail > head {
                s += &format!("#   ... {} more (tbsim replay FILE --log)\n", tail - head);
            }
            for x in &l[tail..] {
                s += &format!("#   {}\n", x);
            }
        }
        s
    }

    pub fn from_text(t: &str) -> Option<Replay> {
        let mut r = Replay {
            prop: String::new(),
            class: String::new(),
            msg: String::new(),
            seed: 0,
            hash: 0,
            plan: Plan::from_text(t)?,
            script: None,
        };
        for l in t.lines() {
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "property" => r.prop = v.into(),
                "class" => r.class = v.into(),
                "message" => r.msg = v.into(),
                "seed" => r.seed = v.parse().ok()?,
                "hash" => r.hash = u64::from_str_radix(v, 16).ok()?,
                "decisions" => {
                    let mut s = vec![];
                    for x in v.split_whitespace() {
                        match x.split_once('x') {
                            Some((a, n)) => {
                                let a: u8 = a.parse().ok()?;
                                let n: usize = n.parse().ok()?;
                                s.extend(std::iter::repeat(a).take(n));
                            }
                            None => s.push(x.parse().ok()?),
                        }
                    }
                    r.script = Some(s);
                }
                _ => {}
            }
        }
        Some(r)
    }
}

pub fn load(path: &str) -> Option<Replay> {
    Replay::from_text(&std::fs::read_to_string(path).ok()?)
}

/// Exit 1: the recorded violation happened again; 0: it did not.
pub fn replay(a: &Args) -> i32 {
    let Some(r) = a.0.get(1).and_then(|f| load(f)) else {
        eprintln!("cannot read the replay file");
        return 2;
    };
    let log = a.has("--log");
    let out = exec::run(&r.plan, r.seed, r.script.clone(), log);
    if let Some(l) = &out.log {
        for x in l {
            println!("{}", x);
        }
    }
    for v in &out.viol {
        println!("{} (step {}): {}", v.class, v.step, v.msg);
    }
    let same = out.viol.iter().any(|v| v.class == r.class);
    println!(
        "recorded: {} ({}); replay: {}; execution hash {:016x} {}",
        r.class, r.msg,
        if same { "reproduced" } else { "not reproduced" },
        out.hash,
        if out.hash == r.hash { "identical" } else { "differs" }
    );
    same as i32
}

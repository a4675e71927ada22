//! The element type carried through the queues and channels, with a registry
//! that follows every instance from creation to drop, and the recycling policy
//! used by the simulated users.
use crate::arena;
use crate::rt::{rt, PT_USER};
use std::collections::BTreeMap;

const MAGIC: u64 = 0x7448_1A6B_0F00_D1E5;
const DROPPED: u64 = 0xD20B_BED0_D20B_BED0;

/// What the running thread is doing, as far as element lifetimes care.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpKind {
    None,
    PushVal,
    PushRef,
    PopVal,
    PopRef,
    Teardown,
    User,
}

#[derive(Clone, Copy)]
pub struct Inst {
    pub alive: bool,
    /// The operation (serial number of calls) in which it was created.
    pub born_op: u64,
}

pub struct Reg {
    pub inst: Vec<Inst>,
    pub live: i64,
    pub new_elements: u64,
    pub recycles: u64,
    pub ops: u64,
    pub op: [(OpKind, u64); crate::rt::NT],
    /// Live references by element address: (thread, push side).
    pub refs: BTreeMap<usize, (usize, bool)>,
    /// Panic inside the n-th call of the policy from now on (0: never).
    pub bomb_new: u32,
    pub bomb_recycle: u32,
}

static mut REG: *mut Reg = std::ptr::null_mut();

pub fn reg() -> &'static mut Reg {
    unsafe { &mut *REG }
}

pub fn init() {
    unsafe {
        REG = Box::into_raw(Box::new(Reg {
            inst: vec![],
            live: 0,
            new_elements: 0,
            recycles: 0,
            ops: 0,
            op: [(OpKind::None, 0); crate::rt::NT],
            refs: BTreeMap::new(),
            bomb_new: 0,
            bomb_recycle: 0,
        }))
    }
}

pub fn reset() {
    let r = reg();
    r.inst.clear();
    r.live = 0;
    r.new_elements = 0;
    r.recycles = 0;
    r.ops = 0;
    r.op = [(OpKind::None, 0); crate::rt::NT];
    r.refs.clear();
    r.bomb_new = 0;
    r.bomb_recycle = 0;
}

pub fn words(serial: u64) -> [u64; 2] {
    [
        serial.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1111_2222_3333_4444,
        serial.rotate_left(17) ^ 0xABCD_EF01_2345_6789,
    ]
}

#[repr(C)]
pub struct Elem {
    magic: u64,
    inst: u64,
    pub serial: u64,
    pub w: [u64; 2],
}

impl Elem {
    fn fresh(serial: u64, w: [u64; 2]) -> Elem {
        arena::untracked(|| {
            let r = reg();
            let cur = rt().cur;
            r.inst.push(Inst { alive: true, born_op: r.op[cur].1 });
            r.live += 1;
            Elem { magic: MAGIC, inst: r.inst.len() as u64 - 1, serial, w }
        })
    }

    pub fn value(serial: u64) -> Elem {
        Elem::fresh(serial, words(serial))
    }

    pub fn inst(&self) -> u64 {
        self.inst
    }

    /// An element the library hands out must be a live instance.
    pub fn check_live(&self, what: &'static str) -> bool {
        let ok = self.magic == MAGIC
            && (self.inst as usize) < reg().inst.len()
            && reg().inst[self.inst as usize].alive;
        if !ok {
            arena::untracked(|| {
                let m = if self.magic == DROPPED {
                    "an element that was already dropped".to_string()
                } else if self.magic == MAGIC {
                    "a second copy of an element that was already dropped".to_string()
                } else {
                    format!("memory that holds no element (tag {:#x})", self.magic)
                };
                rt().fatal("bad-element", format!("{}: {}", what, m));
            });
        }
        ok
    }

    fn check_not_referenced(&self, what: &'static str) {
        let a = self as *const _ as usize;
        if let Some(&(t, _)) = reg().refs.get(&a) {
            let cur = rt().cur;
            if t != cur || what == "reset" {
                arena::untracked(|| {
                    rt().fatal(
                        "alias",
                        format!("thread {} has an element {} while thread {} holds a reference to it", cur, what, t),
                    )
                });
            }
        }
    }

    pub fn is_clean(&self) -> bool {
        self.serial == 0 && self.w == [0, 0]
    }

    fn reset_in_place(&mut self) {
        self.check_live("recycling");
        self.check_not_referenced("reset");
        self.serial = 0;
        arena::untracked(|| rt().point(PT_USER));
        self.w = [0, 0];
    }
}

impl Default for Elem {
    fn default() -> Elem {
        arena::untracked(|| rt().point(PT_USER));
        Elem::fresh(0, [0, 0])
    }
}

impl Clone for Elem {
    fn clone(&self) -> Elem {
        self.check_live("cloning");
        Elem::fresh(self.serial, self.w)
    }

    /// Like a collection's `clone_from`: keeps the instance (its "allocation").
    fn clone_from(&mut self, o: &Elem) {
        o.check_live("cloning");
        if o.is_clean() {
            self.reset_in_place();
            reg().recycles += 1;
        } else {
            self.check_live("cloning into");
            self.check_not_referenced("reset");
            self.serial = o.serial;
            self.w = o.w;
        }
    }
}

impl Drop for Elem {
    fn drop(&mut self) {
        let r = reg();
        if self.magic != MAGIC || self.inst as usize >= r.inst.len() || !r.inst[self.inst as usize].alive {
            self.check_live("dropping");
            return;
        }
        self.check_not_referenced("dropped");
        let cur = rt().cur;
        let (op, n) = r.op[cur];
        if matches!(op, OpKind::PushRef | OpKind::PopRef) && r.inst[self.inst as usize].born_op != n {
            arena::untracked(|| {
                rt().violation(
                    "not-reused",
                    format!("a by-reference operation of thread {} dropped an element instead of leaving it in place", cur),
                )
            });
        }
        r.inst[self.inst as usize].alive = false;
        r.live -= 1;
        self.magic = DROPPED;
    }
}

/// The recycling policy of the simulated users.
#[derive(Debug, Clone, Default)]
pub struct Rec;

pub struct Injected;

fn bomb(n: &mut u32) {
    if *n > 0 {
        *n -= 1;
        if *n == 0 {
            let r = rt();
            let c = r.cur;
            r.th[c].panicking = true;
            arena::st().count = false;
            let p = arena::untracked(|| Box::new(Injected));
            std::panic::resume_unwind(p);
        }
    }
}

impl thingbuf::Recycle<Elem> for Rec {
    fn new_element(&self) -> Elem {
        arena::untracked(|| rt().point(PT_USER));
        bomb(&mut reg().bomb_new);
        reg().new_elements += 1;
        Elem::fresh(0, [0, 0])
    }

    fn recycle(&self, e: &mut Elem) {
        bomb(&mut reg().bomb_recycle);
        e.reset_in_place();
        reg().recycles += 1;
    }
}

impl std::fmt::Debug for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check_live("formatting a message");
        write!(f, "message {}", self.serial)
    }
}

impl std::fmt::Display for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check_live("displaying a message");
        write!(f, "{}", self.serial)
    }
}

/// Hex digits written to an element shift its contents.
impl std::fmt::Write for Elem {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        s.chars().try_for_each(|c| self.write_char(c))
    }
    fn write_char(&mut self, c: char) -> std::fmt::Result {
        self.check_live("writing to a message");
        let d = c.to_digit(16).ok_or(std::fmt::Error)? as u64;
        self.w = [self.w[0] << 4 | self.w[1] >> 60, self.w[1] << 4 | d];
        Ok(())
    }
}

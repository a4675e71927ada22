//! Collections carried through a queue under the capacity-retaining policy.
use crate::arena;
use crate::elem::OpKind;
use crate::exec::{call, preset, static_cap, thread_body};
use crate::oracle;
use crate::plan::*;
use crate::rt::{rt, Call};
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::sync::Arc;
use thingbuf::recycling::{Recycle, WithCapacity};
use thingbuf::{Ref, StaticThingBuf, ThingBuf};

pub trait Coll: 'static {
    /// Capacities are rounded up by the collection itself.
    const ROUNDS: bool = false;
    fn put(&mut self, v: u64);
    fn vals(&self) -> Vec<u64>;
    fn cap(&self) -> usize;
    fn size(&self) -> usize;
}

impl Coll for Vec<u64> {
    fn put(&mut self, v: u64) {
        self.push(v)
    }
    fn vals(&self) -> Vec<u64> {
        self.clone()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn size(&self) -> usize {
        self.len()
    }
}
impl Coll for String {
    fn put(&mut self, v: u64) {
        self.push(char::from_u32(0x30 + (v & 0x3f) as u32).unwrap())
    }
    fn vals(&self) -> Vec<u64> {
        self.chars().map(|c| c as u64 - 0x30).collect()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn size(&self) -> usize {
        self.len()
    }
}
impl Coll for VecDeque<u64> {
    fn put(&mut self, v: u64) {
        self.push_back(v)
    }
    fn vals(&self) -> Vec<u64> {
        self.iter().copied().collect()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn size(&self) -> usize {
        self.len()
    }
}
impl Coll for BinaryHeap<u64> {
    fn put(&mut self, v: u64) {
        self.push(v)
    }
    fn vals(&self) -> Vec<u64> {
        self.iter().copied().collect()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn size(&self) -> usize {
        self.len()
    }
}
#[cfg(feature = "std")]
mod hashed {
    use super::Coll;
    use std::collections::hash_map::DefaultHasher;
    use std::collections::{HashMap, HashSet};
    use std::hash::BuildHasherDefault;
    pub type H = BuildHasherDefault<DefaultHasher>;
    impl Coll for HashMap<u64, u64, H> {
        const ROUNDS: bool = true;
        fn put(&mut self, v: u64) {
            self.insert(v, v ^ 1);
        }
        fn vals(&self) -> Vec<u64> {
            self.iter().map(|(k, v)| if *v == *k ^ 1 { *k } else { u64::MAX }).collect()
        }
        fn cap(&self) -> usize {
            self.capacity()
        }
        fn size(&self) -> usize {
            self.len()
        }
    }
    impl Coll for HashSet<u64, H> {
        const ROUNDS: bool = true;
        fn put(&mut self, v: u64) {
            self.insert(v);
        }
        fn vals(&self) -> Vec<u64> {
            self.iter().copied().collect()
        }
        fn cap(&self) -> usize {
            self.capacity()
        }
        fn size(&self) -> usize {
            self.len()
        }
    }
}

trait CollQ<C>: 'static {
    fn push_ref(&'static self) -> Option<Ref<'static, C>>;
    fn pop_ref(&'static self) -> Option<Ref<'static, C>>;
    fn pop(&'static self) -> Option<C>;
}
impl<C: Coll, R: Recycle<C> + 'static> CollQ<C> for ThingBuf<C, R> {
    fn push_ref(&'static self) -> Option<Ref<'static, C>> {
        self.push_ref().ok()
    }
    fn pop_ref(&'static self) -> Option<Ref<'static, C>> {
        self.pop_ref()
    }
    fn pop(&'static self) -> Option<C> {
        self.pop()
    }
}
impl<C: Coll, const N: usize, R: Recycle<C> + 'static> CollQ<C> for StaticThingBuf<C, N, R> {
    fn push_ref(&'static self) -> Option<Ref<'static, C>> {
        self.push_ref().ok()
    }
    fn pop_ref(&'static self) -> Option<Ref<'static, C>> {
        self.pop_ref()
    }
    fn pop(&'static self) -> Option<C> {
        self.pop()
    }
}

struct Shared {
    serial: u64,
    /// Capacity an element had when it was released by reference, by address.
    caps: BTreeMap<usize, usize>,
    /// Contents sent and not yet received.
    inside: BTreeMap<u64, Vec<u64>>,
}

/// Values are unique per serial number, except that a `String` keeps 6 bits.
fn content(s: u64, n: u64, text: bool) -> Vec<u64> {
    (0..n).map(|i| if text { (s.wrapping_mul(31) + i * 7) & 0x3f } else { s << 16 | i }).collect()
}

fn push<C: Coll>(q: &'static dyn CollQ<C>, sh: &mut Shared, op: &Op, plan: &Plan, text: bool) {
    rt().boundary();
    let (min, max) = (plan.x[1] as usize, plan.x[2] as usize);
    let Some(mut r) = call(Call::NonWaiting, OpKind::None, || q.push_ref()) else { return };
    let _g = arena::Guard::set(false, false);
    let addr = &*r as *const C as usize;
    let cap = r.cap();
    let max = if plan.x[2] == u32::MAX { usize::MAX } else { max };
    if r.size() != 0 {
        rt().violation("stale-element", format!("a collection handed out for writing still has {} items", r.size()));
    }
    match sh.caps.remove(&addr) {
        Some(prev) => {
            if cap < prev.min(max) {
                rt().violation("capacity-lost", format!("a reused collection had capacity {} and now has {} (maximum {})", prev, cap, max));
            }
            let top = if C::ROUNDS { max.saturating_mul(2).saturating_add(8) } else { max };
            if prev > max && cap > top {
                rt().violation("capacity-kept", format!("a reused collection keeps capacity {} beyond the maximum {}", cap, max));
            }
        }
        None => {
            if cap < min.min(max) {
                rt().violation("capacity-lost", format!("a new collection has capacity {} (minimum {})", cap, min));
            }
        }
    }
    sh.serial += 1;
    let s = sh.serial;
    let vals = content(s, 2 + op.p as u64, text);
    for v in &vals {
        r.put(*v);
    }
    rt().logf(|| format!("push collection {} with {} items (capacity {} -> {})", s, vals.len(), cap, r.cap()));
    sh.inside.insert(s, vals);
    drop(_g);
    rt().boundary();
    call(Call::MayLock, OpKind::None, || drop(r));
}

fn check<C: Coll>(c: &C, sh: &mut Shared, text: bool) {
    let mut v = c.vals();
    if !text {
        v.sort();
    }
    let k = sh.inside.iter().find(|(_, x)| **x == v).map(|(k, _)| *k);
    match k {
        Some(k) => {
            sh.inside.remove(&k);
        }
        None => rt().violation("corrupt", format!("a collection with {} items was popped that nobody pushed like this", v.len())),
    }
}

fn run<C: Coll>(plan: &Plan, q: Box<dyn CollQ<C>>, text: bool) {
    let p = Box::into_raw(q);
    let q: &'static dyn CollQ<C> = unsafe { &*p };
    preset(plan, || q.push_ref().is_none());
    let shp = Box::into_raw(Box::new(Shared { serial: 0, caps: BTreeMap::new(), inside: BTreeMap::new() }));
    let mut bodies: Vec<Box<dyn FnOnce()>> = vec![];
    for t in &plan.threads {
        let ops = t.ops.clone();
        let plan = plan.clone();
        bodies.push(Box::new(move || {
            thread_body(move || {
                for op in &ops {
                    let sh = unsafe { &mut *shp };
                    match op.k {
                        PUSH_REF => push(q, sh, op, &plan, text),
                        POP_REF => {
                            rt().boundary();
                            let Some(r) = call(Call::NonWaiting, OpKind::None, || q.pop_ref()) else { continue };
                            arena::untracked(|| {
                                rt().logf(|| "pop_ref collection".into());
                                check(&*r, sh, text);
                                sh.caps.insert(&*r as *const C as usize, r.cap());
                            });
                            rt().boundary();
                            call(Call::MayLock, OpKind::None, || drop(r));
                        }
                        _ => {
                            rt().boundary();
                            let Some(c) = call(Call::NonWaiting, OpKind::None, || q.pop()) else { continue };
                            arena::untracked(|| {
                                rt().logf(|| "pop collection".into());
                                check(&c, sh, text);
                                drop(c);
                            });
                        }
                    }
                }
            })
        }));
    }
    crate::rt::run_threads(bodies);
    oracle::unfinished();
    if rt().abort {
        return;
    }
    let sh = unsafe { Box::from_raw(shp) };
    let _ = sh;
    call(Call::MayLock, OpKind::Teardown, || drop(unsafe { Box::from_raw(p) }));
}

fn with<C: Coll>(plan: &Plan, text: bool)
where
    WithCapacity: Recycle<C>,
{
    let (min, max) = (plan.x[1] as usize, plan.x[2] as usize);
    let mut r = WithCapacity::new();
    if plan.x[2] != u32::MAX && min % 2 == 0 {
        r = r.with_max_capacity(max);
    }
    r = r.with_min_capacity(min);
    if plan.x[2] != u32::MAX && min % 2 == 1 {
        r = r.with_max_capacity(max);
    }
    let max = if plan.x[2] == u32::MAX { usize::MAX } else { max };
    if r.min_capacity() != min || r.max_capacity() != max {
        rt().violation("capacity-lost", format!("a policy for capacities {} to {} says {} to {}", min, max, r.min_capacity(), r.max_capacity()));
    }
    // policies can be shared
    if plan.rec == 2 {
        let r = arena::tracked(false, || Arc::new(r));
        with_policy::<C, _>(plan, r, text)
    } else {
        with_policy::<C, _>(plan, r, text)
    }
}

fn with_policy<C: Coll, R: Recycle<C> + 'static>(plan: &Plan, r: R, text: bool) {
    if plan.flavour == TB_STATIC {
        static_cap!(plan.cap, N => {
            let q = arena::tracked(false, || Box::new(StaticThingBuf::<C, N, R>::with_recycle(r)));
            run(plan, q, text)
        })
    } else {
        let q = arena::tracked(false, || Box::new(ThingBuf::<C, R>::with_recycle(plan.cap as usize, r)));
        run(plan, q, text)
    }
}

pub fn run_coll(plan: &Plan) {
    match plan.x[0] {
        0 => with::<Vec<u64>>(plan, false),
        1 => with::<String>(plan, true),
        2 => with::<VecDeque<u64>>(plan, false),
        3 => with::<BinaryHeap<u64>>(plan, false),
        #[cfg(feature = "std")]
        4 => with::<std::collections::HashMap<u64, u64, hashed::H>>(plan, false),
        #[cfg(feature = "std")]
        _ => with::<std::collections::HashSet<u64, hashed::H>>(plan, false),
        #[cfg(not(feature = "std"))]
        _ => with::<Vec<u64>>(plan, false),
    }
}

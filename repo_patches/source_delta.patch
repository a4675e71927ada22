From d3233bb11f523aba1e2f82bd1b59bc2170bad62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 01/22] hook: simulation seam for atomics, cells, locks,
 threads (cfg thingbuf_sim)

---
 src/lib.rs        |   2 +
 src/loom.rs       |  28 +-
 src/sim.rs        | 654 ++++++++++++++++++++++++++++++++++++++++++++++
 src/util/mutex.rs |   8 +-
 src/util/panic.rs |   4 +
 5 files changed, 694 insertions(+), 2 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..d9e5cfc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,8 @@ mod macros;
 mod loom;
 pub mod mpsc;
 pub mod recycling;
+#[cfg(thingbuf_sim)]
+mod sim;
 mod util;
 mod wait;
 
diff --git a/src/loom.rs b/src/loom.rs
index 7b67828..2dbc993 100644
--- a/src/loom.rs
+++ b/src/loom.rs
@@ -9,6 +9,8 @@ mod inner {
     }
 
     pub(crate) use loom::{cell, future, hint, sync, thread};
+    #[allow(unused_imports)]
+    pub(crate) use std::time;
     use std::{cell::RefCell, fmt::Write};
 
     pub(crate) mod model {
@@ -208,13 +210,36 @@ mod inner {
 
         #[cfg(feature = "alloc")]
         pub use alloc::sync::*;
+
+        #[cfg(thingbuf_sim)]
+        pub(crate) use crate::sim::atomic;
+
+        #[cfg(all(thingbuf_sim, feature = "alloc"))]
+        pub(crate) use crate::sim::Arc;
     }
 
+    #[cfg(not(thingbuf_sim))]
     pub(crate) use core::sync::atomic;
 
-    #[cfg(feature = "std")]
+    #[cfg(thingbuf_sim)]
+    pub(crate) use crate::sim::{atomic, cell};
+
+    #[cfg(all(feature = "std", not(thingbuf_sim)))]
     pub use std::thread;
 
+    #[cfg(all(feature = "std", thingbuf_sim))]
+    pub(crate) mod thread {
+        pub use crate::sim::thread::*;
+        #[allow(unused_imports)]
+        pub use std::thread::{AccessError, Builder, JoinHandle, LocalKey, Result};
+    }
+
+    #[cfg(all(feature = "std", not(thingbuf_sim)))]
+    pub(crate) use std::time;
+
+    #[cfg(all(feature = "std", thingbuf_sim))]
+    pub(crate) use crate::sim::time;
+
     pub(crate) mod hint {
         #[inline(always)]
         pub(crate) fn spin_loop() {
@@ -224,6 +249,7 @@ mod inner {
         }
     }
 
+    #[cfg(not(thingbuf_sim))]
     pub(crate) mod cell {
         #[derive(Debug)]
         pub(crate) struct UnsafeCell<T>(core::cell::UnsafeCell<T>);
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..11f5815
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,654 @@
+//! Seams for deterministic simulation.
+//!
+//! This module is only compiled with `--cfg thingbuf_sim`. It replaces the
+//! primitives that `crate::loom` normally re-exports from `core`/`std` (atomics,
+//! cells, mutexes, threads, clocks) with versions that report every operation to
+//! an external simulator, which decides the interleaving. The simulator is
+//! linked in by the crate that enables the flag and provides the `__tbsim_*`
+//! functions declared here.
+#![allow(dead_code, missing_docs, unused_imports, clippy::all)]
+
+use core::sync::atomic::{AtomicU64, Ordering};
+
+/// The identity of a simulated object. Assigned lazily by the simulator.
+#[repr(transparent)]
+pub(crate) struct Id(AtomicU64);
+
+impl Id {
+    pub(crate) const fn new() -> Self {
+        Self(AtomicU64::new(0))
+    }
+}
+
+mod ext {
+    use super::*;
+    extern "Rust" {
+        pub(super) fn __tbsim_point(kind: u8);
+        pub(super) fn __tbsim_load(id: &AtomicU64, cur: u64, order: Ordering) -> u64;
+        pub(super) fn __tbsim_store(id: &AtomicU64, cur: u64, new: u64, order: Ordering);
+        pub(super) fn __tbsim_rmw(id: &AtomicU64, cur: u64, new: u64, order: Ordering);
+        pub(super) fn __tbsim_cas_fail(
+            id: &AtomicU64,
+            cur: u64,
+            expected: u64,
+            order: Ordering,
+        ) -> u64;
+        pub(super) fn __tbsim_spurious() -> bool;
+        pub(super) fn __tbsim_fence(order: Ordering);
+        pub(super) fn __tbsim_cell(id: &AtomicU64, write: bool);
+        pub(super) fn __tbsim_dead(id: &AtomicU64);
+        pub(super) fn __tbsim_lock(id: &AtomicU64, wait: bool) -> bool;
+        pub(super) fn __tbsim_unlock(id: &AtomicU64);
+        pub(super) fn __tbsim_arc_clone(id: &AtomicU64);
+        pub(super) fn __tbsim_arc_drop(id: &AtomicU64, last: bool);
+        pub(super) fn __tbsim_thread() -> u64;
+        pub(super) fn __tbsim_park(timeout_ns: Option<u64>);
+        pub(super) fn __tbsim_unpark(thread: u64);
+        pub(super) fn __tbsim_now() -> u64;
+        pub(super) fn __tbsim_panicking() -> bool;
+    }
+}
+
+const POINT_ATOMIC: u8 = 0;
+const POINT_SPIN: u8 = 1;
+const POINT_YIELD: u8 = 2;
+const POINT_ARC: u8 = 3;
+
+pub(crate) fn panicking() -> bool {
+    unsafe { ext::__tbsim_panicking() }
+}
+
+/// Marks an object whose memory is about to go away.
+pub(crate) fn dead_atomic(a: &atomic::AtomicUsize) {
+    unsafe { ext::__tbsim_dead(&a.id.0) }
+}
+
+/// Marks a cell whose memory is about to go away.
+pub(crate) fn dead_cell<T>(c: &cell::UnsafeCell<T>) {
+    unsafe { ext::__tbsim_dead(&c.id.0) }
+}
+
+pub(crate) mod atomic {
+    use super::{ext, Id, POINT_ATOMIC, POINT_SPIN};
+    use core::fmt;
+    pub use core::sync::atomic::{compiler_fence, Ordering};
+
+    pub fn fence(order: Ordering) {
+        unsafe {
+            ext::__tbsim_point(POINT_ATOMIC);
+            ext::__tbsim_fence(order)
+        }
+    }
+
+    pub fn spin_loop_hint() {
+        unsafe { ext::__tbsim_point(POINT_SPIN) }
+    }
+
+    fn fail_order(order: Ordering) -> Ordering {
+        match order {
+            Ordering::AcqRel => Ordering::Acquire,
+            Ordering::Release => Ordering::Relaxed,
+            o => o,
+        }
+    }
+
+    macro_rules! sim_atomic {
+        ($name:ident, $ty:ty) => {
+            pub struct $name {
+                pub(crate) id: Id,
+                v: core::sync::atomic::$name,
+            }
+
+            impl $name {
+                pub const fn new(v: $ty) -> Self {
+                    Self {
+                        id: Id::new(),
+                        v: core::sync::atomic::$name::new(v),
+                    }
+                }
+
+                fn raw(&self) -> $ty {
+                    self.v.load(Ordering::Relaxed)
+                }
+
+                fn update<F: FnOnce($ty) -> $ty>(&self, order: Ordering, f: F) -> $ty {
+                    unsafe { ext::__tbsim_point(POINT_ATOMIC) };
+                    let cur = self.raw();
+                    let new = f(cur);
+                    unsafe { ext::__tbsim_rmw(&self.id.0, cur as u64, new as u64, order) };
+                    self.v.store(new, Ordering::Relaxed);
+                    cur
+                }
+
+                pub fn load(&self, order: Ordering) -> $ty {
+                    unsafe { ext::__tbsim_point(POINT_ATOMIC) };
+                    let v = unsafe { ext::__tbsim_load(&self.id.0, self.raw() as u64, order) };
+                    Self::from_u64(v)
+                }
+
+                pub fn store(&self, new: $ty, order: Ordering) {
+                    unsafe {
+                        ext::__tbsim_point(POINT_ATOMIC);
+                        ext::__tbsim_store(&self.id.0, self.raw() as u64, new as u64, order)
+                    };
+                    self.v.store(new, Ordering::Relaxed);
+                }
+
+                pub fn swap(&self, new: $ty, order: Ordering) -> $ty {
+                    self.update(order, |_| new)
+                }
+
+                fn cas(
+                    &self,
+                    expected: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                    weak: bool,
+                ) -> Result<$ty, $ty> {
+                    unsafe { ext::__tbsim_point(POINT_ATOMIC) };
+                    let cur = self.raw();
+                    if cur == expected && !(weak && unsafe { ext::__tbsim_spurious() }) {
+                        unsafe { ext::__tbsim_rmw(&self.id.0, cur as u64, new as u64, success) };
+                        self.v.store(new, Ordering::Relaxed);
+                        Ok(cur)
+                    } else {
+                        let v = unsafe {
+                            ext::__tbsim_cas_fail(
+                                &self.id.0,
+                                cur as u64,
+                                expected as u64,
+                                failure,
+                            )
+                        };
+                        Err(Self::from_u64(v))
+                    }
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    expected: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    self.cas(expected, new, success, failure, false)
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    expected: $ty,
+                    new: $ty,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$ty, $ty> {
+                    self.cas(expected, new, success, failure, true)
+                }
+
+                pub fn compare_and_swap(&self, expected: $ty, new: $ty, order: Ordering) -> $ty {
+                    match self.cas(expected, new, order, fail_order(order), false) {
+                        Ok(v) | Err(v) => v,
+                    }
+                }
+
+                pub fn fetch_and(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c & v)
+                }
+
+                pub fn fetch_or(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c | v)
+                }
+
+                pub fn fetch_xor(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c ^ v)
+                }
+
+                pub fn fetch_nand(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| !(c & v))
+                }
+
+                pub fn fetch_update<F>(
+                    &self,
+                    set_order: Ordering,
+                    fetch_order: Ordering,
+                    mut f: F,
+                ) -> Result<$ty, $ty>
+                where
+                    F: FnMut($ty) -> Option<$ty>,
+                {
+                    let mut prev = self.load(fetch_order);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
+                            x @ Ok(_) => return x,
+                            Err(next_prev) => prev = next_prev,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $ty {
+                    self.v.get_mut()
+                }
+
+                pub fn into_inner(self) -> $ty {
+                    self.v.into_inner()
+                }
+            }
+
+            impl Default for $name {
+                fn default() -> Self {
+                    Self::new(Default::default())
+                }
+            }
+
+            impl From<$ty> for $name {
+                fn from(v: $ty) -> Self {
+                    Self::new(v)
+                }
+            }
+
+            impl fmt::Debug for $name {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    fmt::Debug::fmt(&self.raw(), f)
+                }
+            }
+        };
+    }
+
+    macro_rules! sim_atomic_int {
+        ($($name:ident, $ty:ty;)*) => {$(
+            sim_atomic!($name, $ty);
+
+            impl $name {
+                fn from_u64(v: u64) -> $ty {
+                    v as $ty
+                }
+
+                pub fn fetch_add(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c.wrapping_add(v))
+                }
+
+                pub fn fetch_sub(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c.wrapping_sub(v))
+                }
+
+                pub fn fetch_max(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c.max(v))
+                }
+
+                pub fn fetch_min(&self, v: $ty, order: Ordering) -> $ty {
+                    self.update(order, |c| c.min(v))
+                }
+            }
+        )*};
+    }
+
+    sim_atomic_int! {
+        AtomicUsize, usize;
+        AtomicIsize, isize;
+        AtomicU8, u8;
+        AtomicU16, u16;
+        AtomicU32, u32;
+        AtomicU64, u64;
+        AtomicI8, i8;
+        AtomicI16, i16;
+        AtomicI32, i32;
+        AtomicI64, i64;
+    }
+
+    sim_atomic!(AtomicBool, bool);
+
+    impl AtomicBool {
+        fn from_u64(v: u64) -> bool {
+            v != 0
+        }
+
+        pub fn fetch_not(&self, order: Ordering) -> bool {
+            self.update(order, |c| !c)
+        }
+    }
+}
+
+pub(crate) mod cell {
+    use super::{ext, Id};
+    use core::fmt;
+
+    pub(crate) struct UnsafeCell<T> {
+        pub(crate) id: Id,
+        v: core::cell::UnsafeCell<T>,
+    }
+
+    impl<T> UnsafeCell<T> {
+        pub const fn new(data: T) -> UnsafeCell<T> {
+            UnsafeCell {
+                id: Id::new(),
+                v: core::cell::UnsafeCell::new(data),
+            }
+        }
+
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*const T) -> R,
+        {
+            unsafe { ext::__tbsim_cell(&self.id.0, false) };
+            f(self.v.get())
+        }
+
+        pub fn with_mut<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            unsafe { ext::__tbsim_cell(&self.id.0, true) };
+            f(self.v.get())
+        }
+
+        pub(crate) fn get_mut(&self) -> MutPtr<T> {
+            MutPtr {
+                id: &self.id,
+                ptr: self.v.get(),
+            }
+        }
+    }
+
+    impl<T> fmt::Debug for UnsafeCell<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("UnsafeCell { .. }")
+        }
+    }
+
+    #[derive(Debug)]
+    pub(crate) struct MutPtr<T: ?Sized> {
+        id: *const Id,
+        ptr: *mut T,
+    }
+
+    impl<T: ?Sized> MutPtr<T> {
+        #[allow(clippy::mut_from_ref)]
+        pub(crate) unsafe fn deref(&self) -> &mut T {
+            ext::__tbsim_cell(&(*self.id).0, true);
+            &mut *self.ptr
+        }
+
+        pub fn with<F, R>(&self, f: F) -> R
+        where
+            F: FnOnce(*mut T) -> R,
+        {
+            unsafe { ext::__tbsim_cell(&(*self.id).0, true) };
+            f(self.ptr)
+        }
+    }
+}
+
+pub(crate) mod mutex {
+    use super::{ext, Id};
+    use core::{cell::UnsafeCell, fmt, ops};
+
+    /// A mutex whose blocking behavior is decided by the simulator.
+    pub(crate) struct Mutex<T> {
+        id: Id,
+        data: UnsafeCell<T>,
+    }
+
+    pub(crate) struct MutexGuard<'a, T> {
+        lock: &'a Mutex<T>,
+    }
+
+    pub(crate) const fn const_mutex<T>(data: T) -> Mutex<T> {
+        Mutex::new(data)
+    }
+
+    impl<T> Mutex<T> {
+        pub(crate) const fn new(data: T) -> Self {
+            Self {
+                id: Id::new(),
+                data: UnsafeCell::new(data),
+            }
+        }
+
+        pub(crate) fn lock(&self) -> MutexGuard<'_, T> {
+            unsafe { ext::__tbsim_lock(&self.id.0, true) };
+            MutexGuard { lock: self }
+        }
+
+        pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
+            if unsafe { ext::__tbsim_lock(&self.id.0, false) } {
+                Some(MutexGuard { lock: self })
+            } else {
+                None
+            }
+        }
+
+        pub(crate) fn get_mut(&mut self) -> &mut T {
+            self.data.get_mut()
+        }
+    }
+
+    impl<T> ops::Deref for MutexGuard<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            unsafe { &*self.lock.data.get() }
+        }
+    }
+
+    impl<T> ops::DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            unsafe { &mut *self.lock.data.get() }
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            unsafe { ext::__tbsim_unlock(&self.lock.id.0) }
+        }
+    }
+
+    impl<T> fmt::Debug for Mutex<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("Mutex { .. }")
+        }
+    }
+
+    unsafe impl<T: Send> Send for Mutex<T> {}
+    unsafe impl<T: Send> Sync for Mutex<T> {}
+    unsafe impl<T: Sync> Sync for MutexGuard<'_, T> {}
+}
+
+#[cfg(feature = "alloc")]
+pub(crate) use self::arc::Arc;
+
+#[cfg(feature = "alloc")]
+mod arc {
+    use super::{ext, Id, POINT_ARC};
+    use core::{fmt, ops};
+
+    struct Shared<T> {
+        id: Id,
+        value: T,
+    }
+
+    /// An `Arc` whose reference count updates are visible to the simulator.
+    pub(crate) struct Arc<T>(alloc::sync::Arc<Shared<T>>);
+
+    impl<T> Arc<T> {
+        pub(crate) fn new(value: T) -> Self {
+            Self(alloc::sync::Arc::new(Shared {
+                id: Id::new(),
+                value,
+            }))
+        }
+
+        pub(crate) fn strong_count(this: &Self) -> usize {
+            alloc::sync::Arc::strong_count(&this.0)
+        }
+
+        pub(crate) fn ptr_eq(this: &Self, other: &Self) -> bool {
+            alloc::sync::Arc::ptr_eq(&this.0, &other.0)
+        }
+    }
+
+    impl<T> Clone for Arc<T> {
+        fn clone(&self) -> Self {
+            unsafe {
+                ext::__tbsim_point(POINT_ARC);
+                ext::__tbsim_arc_clone(&self.0.id.0);
+            }
+            Self(self.0.clone())
+        }
+    }
+
+    impl<T> Drop for Arc<T> {
+        fn drop(&mut self) {
+            unsafe {
+                ext::__tbsim_point(POINT_ARC);
+                ext::__tbsim_arc_drop(&self.0.id.0, Self::strong_count(self) == 1);
+            }
+        }
+    }
+
+    impl<T> ops::Deref for Arc<T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.0.value
+        }
+    }
+
+    impl<T> AsRef<T> for Arc<T> {
+        fn as_ref(&self) -> &T {
+            &self.0.value
+        }
+    }
+
+    impl<T: fmt::Debug> fmt::Debug for Arc<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            fmt::Debug::fmt(&self.0.value, f)
+        }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod thread {
+    use super::{ext, POINT_YIELD};
+    use std::time::Duration;
+
+    #[derive(Clone, Copy, Debug, Eq, PartialEq, Hash)]
+    pub struct ThreadId(u64);
+
+    #[derive(Clone, Debug)]
+    pub struct Thread(u64);
+
+    impl Thread {
+        pub fn id(&self) -> ThreadId {
+            ThreadId(self.0)
+        }
+
+        pub fn name(&self) -> Option<&str> {
+            None
+        }
+
+        pub fn unpark(&self) {
+            unsafe { ext::__tbsim_unpark(self.0) }
+        }
+    }
+
+    pub fn current() -> Thread {
+        Thread(unsafe { ext::__tbsim_thread() })
+    }
+
+    pub fn panicking() -> bool {
+        super::panicking()
+    }
+
+    pub fn park() {
+        unsafe { ext::__tbsim_park(None) }
+    }
+
+    pub fn park_timeout(timeout: Duration) {
+        let ns = timeout.as_nanos().min(u64::MAX as u128 - 1) as u64;
+        unsafe { ext::__tbsim_park(Some(ns)) }
+    }
+
+    pub fn sleep(timeout: Duration) {
+        let start = super::time::Instant::now();
+        loop {
+            let elapsed = start.elapsed();
+            if elapsed >= timeout {
+                return;
+            }
+            park_timeout(timeout - elapsed);
+        }
+    }
+
+    pub fn yield_now() {
+        unsafe { ext::__tbsim_point(POINT_YIELD) }
+    }
+}
+
+#[cfg(feature = "std")]
+pub(crate) mod time {
+    use super::ext;
+    use core::ops;
+    pub use std::time::Duration;
+
+    /// A point in simulated time.
+    #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
+    pub struct Instant(Duration);
+
+    impl Instant {
+        pub fn now() -> Self {
+            Self(Duration::from_nanos(unsafe { ext::__tbsim_now() }))
+        }
+
+        pub fn elapsed(&self) -> Duration {
+            Self::now().duration_since(*self)
+        }
+
+        pub fn duration_since(&self, earlier: Self) -> Duration {
+            self.0.checked_sub(earlier.0).unwrap_or_default()
+        }
+
+        pub fn saturating_duration_since(&self, earlier: Self) -> Duration {
+            self.duration_since(earlier)
+        }
+
+        pub fn checked_duration_since(&self, earlier: Self) -> Option<Duration> {
+            self.0.checked_sub(earlier.0)
+        }
+
+        pub fn checked_add(&self, duration: Duration) -> Option<Self> {
+            self.0.checked_add(duration).map(Self)
+        }
+
+        pub fn checked_sub(&self, duration: Duration) -> Option<Self> {
+            self.0.checked_sub(duration).map(Self)
+        }
+    }
+
+    impl ops::Add<Duration> for Instant {
+        type Output = Self;
+        fn add(self, rhs: Duration) -> Self {
+            self.checked_add(rhs)
+                .expect("overflow when adding duration to instant")
+        }
+    }
+
+    impl ops::AddAssign<Duration> for Instant {
+        fn add_assign(&mut self, rhs: Duration) {
+            *self = *self + rhs;
+        }
+    }
+
+    impl ops::Sub<Duration> for Instant {
+        type Output = Self;
+        fn sub(self, rhs: Duration) -> Self {
+            self.checked_sub(rhs)
+                .expect("overflow when subtracting duration from instant")
+        }
+    }
+
+    impl ops::Sub<Instant> for Instant {
+        type Output = Duration;
+        fn sub(self, rhs: Instant) -> Duration {
+            self.duration_since(rhs)
+        }
+    }
+}
diff --git a/src/util/mutex.rs b/src/util/mutex.rs
index 944a4ca..ceafda9 100644
--- a/src/util/mutex.rs
+++ b/src/util/mutex.rs
@@ -5,11 +5,17 @@ pub(crate) use self::spin_impl::*;
 mod spin_impl;
 
 feature! {
-    #![all(feature = "std", not(all(loom, test)))]
+    #![all(feature = "std", not(all(loom, test)), not(thingbuf_sim))]
     #[allow(unused_imports)]
     pub(crate) use parking_lot::{Mutex, MutexGuard, const_mutex};
 }
 
+feature! {
+    #![all(feature = "std", not(all(loom, test)), thingbuf_sim)]
+    #[allow(unused_imports)]
+    pub(crate) use crate::sim::mutex::{Mutex, MutexGuard, const_mutex};
+}
+
 feature! {
     #![all(loom, test)]
     mod loom_impl;
diff --git a/src/util/panic.rs b/src/util/panic.rs
index 0a51a08..108bbcf 100644
--- a/src/util/panic.rs
+++ b/src/util/panic.rs
@@ -3,10 +3,14 @@ pub(crate) use core::panic::*;
 
 #[cfg(feature = "std")]
 mod inner {
+    #[cfg(not(thingbuf_sim))]
     pub(crate) fn panicking() -> bool {
         std::thread::panicking()
     }
 
+    #[cfg(thingbuf_sim)]
+    pub(crate) use crate::sim::panicking;
+
     pub use std::panic::{catch_unwind, resume_unwind};
 }
 
-- 
2.43.0


From 5340e90762d6ca0b1e980f9cef3e74b1d8d93dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 02/22] hook: take the clock of blocking channels through the
 loom seam

---
 src/mpsc/blocking.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..6c3e7ff 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -9,6 +9,7 @@ use crate::{
         atomic::{self, Ordering},
         sync::Arc,
         thread::{self, Thread},
+        time::{Duration, Instant},
     },
     recycling::{self, Recycle},
     util::Backoff,
@@ -16,7 +17,6 @@ use crate::{
 };
 use core::{fmt, pin::Pin};
 use errors::*;
-use std::time::{Duration, Instant};
 
 /// Returns a new synchronous multi-producer, single consumer (MPSC)
 /// channel with  the provided capacity.
-- 
2.43.0


From 6b0379d5effbf403789d91245941d1bce0bbd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:49 +0000
Subject: [PATCH 03/22] hook: report dropped wait-queue nodes to the simulator
 (cfg thingbuf_sim)

---
 src/wait/queue.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..af6af3f 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -491,6 +491,15 @@ impl<T: Notify> Waiter<T> {
     }
 }
 
+#[cfg(thingbuf_sim)]
+impl<T> Drop for Waiter<T> {
+    fn drop(&mut self) {
+        // Tell the simulator that this node's memory is about to go away.
+        crate::sim::dead_atomic(&self.state);
+        crate::sim::dead_cell(&self.node);
+    }
+}
+
 impl<T> Waiter<T> {
     /// # Safety
     ///
-- 
2.43.0


From 653c3d41ba7edf8c0c3189732ed819b53746f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:14 +0000
Subject: [PATCH 04/22] fix: TrySendError::is_closed and
 SendTimeoutError::is_closed match Closed

---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From d44e897c4c4e20da4211fab35204e68f3d903d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:14 +0000
Subject: [PATCH 05/22] fix: Receiver::is_closed is true only once every sender
 has been dropped

---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..da198ed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 6c3e7ff..0257e7c 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -873,7 +873,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1559,7 +1559,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From 87d5515c3ff650bdbb4747a5e9324ff052143d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:15 +0000
Subject: [PATCH 06/22] fix: do not touch a wait queue node after telling its
 owner it was woken

---
 src/wait/queue.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index af6af3f..3fd015a 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -587,9 +587,6 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
@@ -604,6 +601,12 @@ impl<T> List<T> {
 
         self.tail = prev;
 
+        // Setting the node's state must be the last thing we do with the node:
+        // once the waiter observes that it has been woken, it may drop the node
+        // without acquiring the lock.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         waiter
     }
 
-- 
2.43.0


From c91b558a7dbac4255bec26aa424b1c6f4abce6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:15 +0000
Subject: [PATCH 07/22] fix: WaitQueue::notify decides what to wake after it
 has acquired the lock

---
 src/wait/queue.rs | 69 ++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 3fd015a..d0992c6 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -386,54 +386,55 @@ impl<T: Notify + Unpin> WaitQueue<T> {
             }
         }
 
+        // The queue has closed, so every waiter has been (or is about to be)
+        // woken by the close.
+        if test_dbg!(state == CLOSED) {
+            return false;
+        }
+
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow()");
 
         let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
-                }
+
+        // The queue may have changed while we were waiting to acquire the lock,
+        // so what happens next depends on what is in the list *now*.
+        if let Some(waiter) = list.dequeue(WAKING) {
+            // If we popped the last node, transition back to the empty state
+            // (unless the queue has been closed, which must not be undone).
+            if test_dbg!(list.is_empty()) {
+                let _ = test_dbg!(self
+                    .state
+                    .compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
             }
-            WAITING => {
-                let waiter = list.dequeue(WAKING);
-                debug_assert!(
-                    waiter.is_some(),
-                    "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
-                    self,
-                );
 
-                // If we popped the last node, transition back to the empty
-                // state.
-                if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
-                }
+            // drop the lock
+            drop(list);
 
-                // drop the lock
-                drop(list);
+            // wake the waiter
+            waiter.notify();
+            return true;
+        }
 
-                // wake the waiter
-                if let Some(waiter) = waiter {
-                    waiter.notify();
-                    return true;
-                }
-            }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
+        // Someone else dequeued the last waiter while we were waiting to
+        // acquire the lock, so assign the notification to the queue instead.
+        let mut state = self.state.load(Acquire);
+        while test_dbg!(state) != CLOSED {
+            match test_dbg!(self
+                .state
+                .compare_exchange_weak(state, WAKING, SeqCst, SeqCst))
+            {
+                Ok(_) => break,
+                Err(actual) => state = actual,
             }
         }
         false
-- 
2.43.0


From 10b0c21d5bb55db3ddbba7f73828eb3d3cd41e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:15 +0000
Subject: [PATCH 08/22] fix: WaitQueue::close does not hold the lock while
 waking waiters

---
 src/wait/queue.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index d0992c6..9b81e98 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -445,10 +445,13 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         test_println!("WaitQueue::close()");
 
         test_dbg!(self.state.swap(CLOSED, SeqCst));
-        let mut list = self.list.lock();
-        while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
-                waiter.notify();
+        loop {
+            // Never wake a waiter while holding the lock: waking a task may run
+            // arbitrary code, including code which uses this channel.
+            let waiter = self.list.lock().dequeue(CLOSED);
+            match waiter {
+                Some(waiter) => waiter.notify(),
+                None => break,
             }
         }
     }
-- 
2.43.0


From 882deaa6004d05c58861c037ff3a76a230bba201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:02 +0000
Subject: [PATCH 09/22] fix: a cancelled send passes an unused wakeup on, and
 unlinks its node only if it is linked

---
 src/mpsc/async_impl.rs |  2 +-
 src/wait/queue.rs      | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index da198ed..a1a6f9b 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1495,7 +1495,7 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
+        if test_dbg!(*this.state) == State::Waiting {
             this.waiter.remove(&this.core.tx_wait)
         }
     }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 9b81e98..da1c55b 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -472,10 +472,28 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Stop waiting: unlink this waiter from the queue, if it is still linked.
+    ///
+    /// If the waiter was already woken, but its owner is giving up without
+    /// acting on that wakeup, the wakeup is passed on to another waiter.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>)
+    where
+        T: Unpin,
+    {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
+        // The node may have been woken before we acquired the lock. If so, it
+        // is no longer in the list.
+        match test_dbg!(self.state.load(Acquire)) {
+            WAITING => {}
+            WAKING => {
+                drop(list);
+                q.notify();
+                return;
+            }
+            _ => return,
+        }
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -489,6 +507,7 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    #[cfg(test)]
     #[inline]
     pub(crate) fn is_linked(&self) -> bool {
         test_dbg!(self.state.load(Acquire)) == WAITING
-- 
2.43.0


From 27effbdf95fbfcd98689bcf80ff7a9c9ecc50efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:02 +0000
Subject: [PATCH 10/22] fix: a timed out send removes its node from the wait
 queue before returning

---
 src/mpsc/blocking.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 0257e7c..45fe5a5 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1747,6 +1747,13 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
+                    // We are giving up, so our node must leave the queue before
+                    // it goes out of scope.
+                    let node = unsafe {
+                        // Safety: as above, the waiter is never moved.
+                        Pin::new_unchecked(&mut waiter)
+                    };
+                    node.remove(&core.tx_wait);
                     return Err(SendTimeoutError::Timeout(()));
                 }
             }
-- 
2.43.0


From bfe9e5727151fc517590513323e15fe02bed0082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:02 +0000
Subject: [PATCH 11/22] fix: a blocking send that was woken without getting a
 slot waits again instead of spinning

---
 src/mpsc/blocking.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 45fe5a5..c4f0681 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1686,7 +1686,9 @@ fn send_ref<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(Closed(())),
-                    _ => {}
+                    // Someone else took the slot, and our node has left the
+                    // queue, so we have to start waiting again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
@@ -1739,7 +1741,9 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
-                    _ => {}
+                    // Someone else took the slot, and our node has left the
+                    // queue, so we have to start waiting again.
+                    _ => unqueued = true,
                 }
             }
             WaitResult::Wait => {
-- 
2.43.0


From 3563ee0ee11929a5abac022da2d511139ecf1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:22 +0000
Subject: [PATCH 12/22] fix: timeouts of blocking channels bound the whole
 operation, not each park

---
 src/mpsc/blocking.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index c4f0681..92be69d 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1637,11 +1637,13 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
+                // Only park for as long as is left of the timeout, as we may have
+                // been woken before it elapsed.
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
                 }
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
@@ -1748,9 +1750,12 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
+                // Only park for as long as is left of the timeout, as we may have
+                // been woken before it elapsed.
                 let elapsed = beginning_park.elapsed();
-                if elapsed >= timeout {
+                if elapsed < timeout {
+                    thread::park_timeout(timeout - elapsed);
+                } else {
                     // We are giving up, so our node must leave the queue before
                     // it goes out of scope.
                     let node = unsafe {
-- 
2.43.0


From c97199812f4cb17bc6d4c9de45f93756159321fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 13/22] fix: dropping the last sender, or the receiver, while
 unwinding closes the channel

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d9e5cfc..0f6dad1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -169,7 +169,8 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
-        if crate::util::panic::panicking() {
+        // Loom's mocked atomics may not be used while unwinding.
+        if cfg!(all(loom, test)) && crate::util::panic::panicking() {
             return false;
         }
         test_dbg!(self.tail.fetch_or(self.closed, SeqCst) & self.closed == 0)
-- 
2.43.0


From a6c7e61d14bdc6787a72dfad75beee0df208aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:57 +0000
Subject: [PATCH 14/22] fix: dropping a StaticChannel drops the elements in its
 slots

---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index a1a6f9b..45c6603 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -756,6 +756,12 @@ feature! {
         }
     }
 
+    impl<T, const CAPACITY: usize, R> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 92be69d..9ed745d 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -240,6 +240,12 @@ feature! {
         }
     }
 
+    impl<T, const CAPACITY: usize, R> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From ad7e411250aa04c6d2b75a7be52c66bd29d63a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:47 +0000
Subject: [PATCH 15/22] fix: push does not wait for another thread to drop its
 Ref

---
 src/lib.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f6dad1..2c95858 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -260,17 +260,26 @@ impl Core {
                 }
             }
 
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let head = test_dbg!(self.head.fetch_or(0, SeqCst));
+            if test_dbg!(head.wrapping_add(self.gen) == tail) {
+                test_println!("channel full");
+                return Err(TrySendError::Full(()));
+            }
+
             if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-                let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-                if test_dbg!(head.wrapping_add(self.gen) == tail) {
-                    test_println!("channel full");
+                // The slot has been popped, but the `Ref` to it has not been
+                // dropped yet. It might be held for as long as its owner likes,
+                // so don't wait for it forever: until it is dropped, there is
+                // no slot we could push to.
+                if test_dbg!(backoff.done_spinning()) {
+                    test_println!("channel full (slot is still borrowed)");
                     return Err(TrySendError::Full(()));
                 }
 
-- 
2.43.0


From 72d9316704429726aa1499e95f3176439a605457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:47 +0000
Subject: [PATCH 16/22] fix: pop does not wait for another thread to drop its
 Ref to a popped element

---
 src/lib.rs | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2c95858..c3d47ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -346,26 +346,26 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-
-                let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
-
-                if test_dbg!(tail & !self.closed == head) {
-                    return if test_dbg!(tail & self.closed != 0) {
-                        Err(TryRecvError::Closed)
-                    } else {
-                        test_println!("--> channel empty!");
-                        Err(TryRecvError::Empty)
-                    };
-                }
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
 
+            let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
+
+            if test_dbg!(tail & !self.closed == head) {
+                return if test_dbg!(tail & self.closed != 0) {
+                    Err(TryRecvError::Closed)
+                } else {
+                    test_println!("--> channel empty!");
+                    Err(TryRecvError::Empty)
+                };
+            }
+
+            if test_dbg!(state == head) {
                 if test_dbg!(backoff.done_spinning()) {
                     return Err(TryRecvError::Empty);
                 }
-- 
2.43.0


From 6c66d4b28cf7a79b75316d0d6aad9dbdeb2a7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:56 +0000
Subject: [PATCH 17/22] hook: preset position counters, AtomicPtr in the seam
 (cfg thingbuf_sim)

---
 src/lib.rs |  5 +++
 src/sim.rs | 92 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 97 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c3d47ae..126ad6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -186,6 +186,11 @@ impl Core {
         R: Recycle<T>,
     {
         test_println!("push_ref");
+        #[cfg(all(thingbuf_sim, thingbuf_sim_preset))]
+        if let Some(laps) = sim::preset() {
+            self.preset_position(slots, recycle, laps);
+            return Err(TrySendError::Full(()));
+        }
         let mut backoff = Backoff::new();
         let mut tail = self.tail.load(Relaxed);
 
diff --git a/src/sim.rs b/src/sim.rs
index 11f5815..2e48b55 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -46,6 +46,8 @@ mod ext {
         pub(super) fn __tbsim_unpark(thread: u64);
         pub(super) fn __tbsim_now() -> u64;
         pub(super) fn __tbsim_panicking() -> bool;
+        #[cfg(thingbuf_sim_preset)]
+        pub(super) fn __tbsim_preset() -> Option<usize>;
     }
 }
 
@@ -58,6 +60,32 @@ pub(crate) fn panicking() -> bool {
     unsafe { ext::__tbsim_panicking() }
 }
 
+/// Does the simulator want the queue's positions preset by this call?
+#[cfg(thingbuf_sim_preset)]
+pub(crate) fn preset() -> Option<usize> {
+    unsafe { ext::__tbsim_preset() }
+}
+
+#[cfg(thingbuf_sim_preset)]
+impl crate::Core {
+    /// Puts an unused queue in the state it is in after so many laps that only
+    /// `laps` of them are left before its position counters overflow.
+    pub(crate) fn preset_position<T, R>(&self, slots: &[crate::Slot<T>], recycle: &R, laps: usize)
+    where
+        R: crate::recycling::Recycle<T>,
+    {
+        let start = self.gen.wrapping_mul(laps).wrapping_neg();
+        for (i, slot) in slots.iter().enumerate() {
+            slot.value.with_mut(|value| unsafe {
+                (*value).as_mut_ptr().write(recycle.new_element());
+            });
+            slot.state.store(start | i, Ordering::SeqCst);
+        }
+        self.head.store(start, Ordering::SeqCst);
+        self.tail.store(start, Ordering::SeqCst);
+    }
+}
+
 /// Marks an object whose memory is about to go away.
 pub(crate) fn dead_atomic(a: &atomic::AtomicUsize) {
     unsafe { ext::__tbsim_dead(&a.id.0) }
@@ -296,6 +324,62 @@ pub(crate) mod atomic {
         AtomicI64, i64;
     }
 
+    /// Pointers are only stored and loaded whole.
+    pub struct AtomicPtr<T> {
+        v: AtomicUsize,
+        _p: core::marker::PhantomData<*mut T>,
+    }
+
+    unsafe impl<T> Send for AtomicPtr<T> {}
+    unsafe impl<T> Sync for AtomicPtr<T> {}
+
+    impl<T> AtomicPtr<T> {
+        pub fn new(p: *mut T) -> Self {
+            Self {
+                v: AtomicUsize::new(p as usize),
+                _p: core::marker::PhantomData,
+            }
+        }
+
+        pub fn load(&self, order: Ordering) -> *mut T {
+            self.v.load(order) as *mut T
+        }
+
+        pub fn store(&self, p: *mut T, order: Ordering) {
+            self.v.store(p as usize, order)
+        }
+
+        pub fn swap(&self, p: *mut T, order: Ordering) -> *mut T {
+            self.v.swap(p as usize, order) as *mut T
+        }
+
+        pub fn compare_exchange(
+            &self,
+            expected: *mut T,
+            new: *mut T,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<*mut T, *mut T> {
+            self.v
+                .compare_exchange(expected as usize, new as usize, success, failure)
+                .map(|p| p as *mut T)
+                .map_err(|p| p as *mut T)
+        }
+
+        pub fn compare_exchange_weak(
+            &self,
+            expected: *mut T,
+            new: *mut T,
+            success: Ordering,
+            failure: Ordering,
+        ) -> Result<*mut T, *mut T> {
+            self.v
+                .compare_exchange_weak(expected as usize, new as usize, success, failure)
+                .map(|p| p as *mut T)
+                .map_err(|p| p as *mut T)
+        }
+    }
+
     sim_atomic!(AtomicBool, bool);
 
     impl AtomicBool {
@@ -484,6 +568,14 @@ mod arc {
         pub(crate) fn ptr_eq(this: &Self, other: &Self) -> bool {
             alloc::sync::Arc::ptr_eq(&this.0, &other.0)
         }
+
+        pub(crate) fn as_ptr(this: &Self) -> *const T {
+            &this.0.value
+        }
+
+        pub(crate) fn get_mut(this: &mut Self) -> Option<&mut T> {
+            alloc::sync::Arc::get_mut(&mut this.0).map(|s| &mut s.value)
+        }
     }
 
     impl<T> Clone for Arc<T> {
-- 
2.43.0


From 411ec62ed421abb421762b650a8f738430e686a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:02 +0000
Subject: [PATCH 18/22] fix: don't reuse generation 0 when the position
 counters wrap around

Once the generation wrapped around to 0, initialized slots were taken for
uninitialized ones: their elements were overwritten without being dropped,
and not dropped with the queue.
---
 src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 126ad6a..4e8fb70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -158,7 +158,20 @@ impl Core {
         } else {
             // We've reached the end of the current lap, wrap the index around
             // to 0.
-            gen.wrapping_add(self.gen)
+            self.next_lap(gen)
+        }
+    }
+
+    /// Returns the position (or slot state) one lap after `pos`.
+    #[inline]
+    fn next_lap(&self, pos: usize) -> usize {
+        let next = pos.wrapping_add(self.gen);
+        if next & self.gen_mask == 0 {
+            // Generation 0 means that the slots have not been initialized yet,
+            // so skip it when the generation wraps around.
+            next.wrapping_add(self.gen)
+        } else {
+            next
         }
     }
 
@@ -273,12 +286,12 @@ impl Core {
             // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
             // load it gets reordered differently in the model checker lmao...
             let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-            if test_dbg!(head.wrapping_add(self.gen) == tail) {
+            if test_dbg!(self.next_lap(head) == tail) {
                 test_println!("channel full");
                 return Err(TrySendError::Full(()));
             }
 
-            if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
+            if test_dbg!(self.next_lap(state) == tail + 1) {
                 // The slot has been popped, but the `Ref` to it has not been
                 // dropped yet. It might be held for as long as its owner likes,
                 // so don't wait for it forever: until it is dropped, there is
@@ -338,7 +351,7 @@ impl Core {
                     Ok(_) => {
                         test_println!("claimed head slot [{}]", idx);
                         return Ok(Ref {
-                            new_state: head.wrapping_add(self.gen),
+                            new_state: self.next_lap(head),
                             ptr: slot.value.get_mut(),
                             slot,
                         });
-- 
2.43.0


From cd0de5ae4abb08534cc743ef4d983f440d365108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:34 +0000
Subject: [PATCH 19/22] fix: don't drop a replaced waker while holding the wait
 queue's lock

Dropping a task's waker may run arbitrary code: the last waker of a task
drops the task, which may own a pending send or a sender of this very
channel, and dropping those takes the lock again. Replace the waker under
the lock, but drop the old one after releasing it.
---
 src/wait/queue.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index da1c55b..e6d4110 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -347,17 +347,16 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // Okay, we were not woken and need to continue waiting. It may be
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
-        node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
-                // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
-            }
+        let prev_waiter = node.with_node(&mut *list, |node| match node.waiter {
+            Some(ref waiter) if waiter.same(my_waiter) => None,
+            _ => node.waiter.replace(my_waiter.clone()),
         });
 
+        // Never drop a waiter while holding the lock: dropping a task's waker
+        // may run arbitrary code, including code which uses this channel.
+        drop(list);
+        drop(prev_waiter);
+
         WaitResult::Wait
     }
 
-- 
2.43.0


From 39151ae489563e5806bf605d32f11e11855fccb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:13 +0000
Subject: [PATCH 20/22] fix: refuse to construct a static queue or channel with
 no capacity

A StaticThingBuf or StaticChannel with a capacity of 0 could be constructed,
and its first push or pop then accessed a slot outside of its empty array.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4e8fb70..593ce5e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -108,6 +108,8 @@ struct Slot<T> {
 impl Core {
     #[cfg(not(all(loom, test)))]
     const fn new(capacity: usize) -> Self {
+        // With no slots at all, there is nothing the indices could point to.
+        assert!(capacity > 0, "capacity must be greater than zero");
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
-- 
2.43.0


From 097eda2f358c0ebe5d715791d7a7d3c05e26bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 21/22] fix: notify the registered waker when cloning the new
 one panics

WaitCell::wait_with asserted that no waker is left in the cell if making the
new one panicked. When a receive is polled again, the waker of the previous
poll is still there, so with debug assertions a notification at that moment
failed the assertion and dropped that waker without waking it.
---
 src/wait/cell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 19a1134..b4f100d 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -129,8 +129,9 @@ impl<T: Notify> WaitCell<T> {
                     }));
                 }
 
+                // If making the new waiter panicked, this is the one that was
+                // registered by an earlier call.
                 if let Some(waiter) = waiter {
-                    debug_assert!(panicked.is_none());
                     waiter.notify();
                 }
 
-- 
2.43.0


From 841b6008c116c430f8fc759bd7a2ca0aa156353e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:47 +0000
Subject: [PATCH 22/22] fix: don't clone a waker while holding the wait queue's
 lock

Cloning a task's waker may run arbitrary code, including code which uses the
same channel, which then deadlocked (or never got the spin lock).
---
 src/wait/queue.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index e6d4110..0622ec6 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -211,6 +211,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Never clone a waiter while holding the lock: cloning a task's waker
+        // may run arbitrary code, including code which uses this channel.
+        let waiter = waiter.clone();
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,7 +274,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            let _prev = node.waiter.replace(waiter);
             debug_assert!(
                 _prev.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
@@ -328,7 +332,9 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // If the waiting task/thread was woken but no wakeup was assigned to
         // the node, we may need to update the node with a new waiter.
-        // Therefore, lock the queue in order to modify the node.
+        // Therefore, lock the queue in order to modify the node. The new waiter
+        // is cloned before that, as cloning it may run arbitrary code, too.
+        let new_waiter = my_waiter.clone();
         let mut list = self.list.lock();
 
         // The node may have been woken while we were waiting to acquire the
@@ -348,8 +354,8 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
         let prev_waiter = node.with_node(&mut *list, |node| match node.waiter {
-            Some(ref waiter) if waiter.same(my_waiter) => None,
-            _ => node.waiter.replace(my_waiter.clone()),
+            Some(ref waiter) if waiter.same(my_waiter) => Some(new_waiter),
+            _ => node.waiter.replace(new_waiter),
         });
 
         // Never drop a waiter while holding the lock: dropping a task's waker
-- 
2.43.0


//! Arena allocator for everything the code under test allocates during a run.
//!
//! Memory is handed out by a bump pointer at a fixed address and never reused
//! within a run; freed blocks are poisoned, so a use after free meets a
//! recognisable pattern (or an invalid object id) instead of plausible data, and
//! every run sees the same addresses.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct Arena;

const BASE: usize = 0x5a00_0000_0000;
const SIZE: usize = 64 << 20;
const HDR_LIVE: u64 = 0xA11C_A11C_A11C_A11C;
const HDR_FREED: u64 = 0xF4EE_DF4E_EDF4_EEDF;
pub const POISON_FREE: u8 = 0xDD;
const POISON_NEW: u8 = 0xA5;

pub struct State {
    pub mapped: bool,
    /// Allocations go to the arena.
    pub on: bool,
    /// Allocations are counted against the current operation.
    pub count: bool,
    pub bump: usize,
    pub live: usize,
    pub allocs: u64,
    pub counted: u64,
    pub counted_bytes: u64,
    pub double_free: u64,
    pub total_bytes: u64,
}

pub static mut ST: State = State {
    mapped: false,
    on: false,
    count: false,
    bump: BASE,
    live: 0,
    allocs: 0,
    counted: 0,
    counted_bytes: 0,
    double_free: 0,
    total_bytes: 0,
};

#[allow(static_mut_refs)]
pub fn st() -> &'static mut State {
    unsafe { &mut ST }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p as usize == BASE, "cannot map the simulation arena");
        st().mapped = true;
    }
}

/// Forget everything from the previous run.
pub fn reset() {
    let s = st();
    s.on = false;
    s.count = false;
    s.bump = BASE;
    s.live = 0;
    s.allocs = 0;
    s.counted = 0;
    s.counted_bytes = 0;
    s.double_free = 0;
}

pub fn contains(p: usize) -> bool {
    p >= BASE && p < BASE + SIZE
}

/// Runs `f` with allocations going to the normal heap, uncounted.
#[inline]
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let _g = Guard::set(false, false);
    f()
}

/// Runs `f` with allocations going to the arena; `count` charges them.
#[inline]
pub fn tracked<R>(count: bool, f: impl FnOnce() -> R) -> R {
    let _g = Guard::set(true, count);
    f()
}

pub struct Guard(bool, bool);
impl Guard {
    #[inline]
    pub fn set(on: bool, count: bool) -> Guard {
        let s = st();
        let g = Guard(s.on, s.count);
        s.on = on;
        s.count = count;
        g
    }
}
impl Drop for Guard {
    #[inline]
    fn drop(&mut self) {
        let s = st();
        s.on = self.0;
        s.count = self.1;
    }
}

unsafe impl GlobalAlloc for Arena {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = st();
        if !s.on {
            return System.alloc(l);
        }
        let align = l.align().max(16);
        let start = (s.bump + 16 + align - 1) & !(align - 1);
        let end = start + l.size();
        if end > BASE + SIZE {
            return core::ptr::null_mut();
        }
        s.bump = end;
        ((start - 8) as *mut u64).write(HDR_LIVE);
        core::ptr::write_bytes(start as *mut u8, POISON_NEW, l.size());
        s.live += 1;
        s.allocs += 1;
        s.total_bytes += l.size() as u64;
        if s.count {
            s.counted += 1;
            s.counted_bytes += l.size() as u64;
        }
        start as *mut u8
    }

    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !contains(p as usize) {
            return System.dealloc(p, l);
        }
        let s = st();
        let h = (p as usize - 8) as *mut u64;
        if h.read() != HDR_LIVE {
            s.double_free += 1;
            return;
        }
        h.write(HDR_FREED);
        core::ptr::write_bytes(p, POISON_FREE, l.size());
        s.live = s.live.wrapping_sub(1);
    }
}

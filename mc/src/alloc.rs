//! The checking allocator.
//!
//! Allocations made by the library (inside [`lib`]) come from an arena that is rewound before every execution.
//! Every block is surrounded by red zones, filled with garbage when handed out and poisoned when it is released,
//! and is never handed out again in the same execution. Everything else goes to the system allocator.
use crate::engine::{fault, Racy, F_ALLOC};
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};

pub const RED: usize = 64;
pub const FRESH: u8 = 0xA5;
pub const DEAD: u8 = 0xDE;
pub const REDB: u8 = 0xFD;
const ARENA: usize = 1 << 26;
/// Requests above this size are refused (returns null), as if the machine had no more memory.
pub const HUGE: usize = 1 << 20;
const MAXB: usize = 4096;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// obtained through the global allocator or a custom one: must be released
    Heap,
    /// a buffer lent to the library by the harness
    Guard,
}

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    kind: Kind,
    owner: u32,
    live: bool,
}

/// What the allocator has seen so far in this execution.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Stat {
    /// successful allocations and reallocations
    pub allocs: u64,
    /// releases, not counting those inside a reallocation
    pub frees: u64,
    /// refused requests
    pub refused: u64,
    /// blocks owned now
    pub live: u64,
}

struct A {
    base: usize,
    bump: usize,
    n: usize,
    track: bool,
    st: Stat,
    allow_leak: bool,
    refuse: bool,
    /// requests to go until one is refused, and whether those after it are refused too
    deny: Option<(u32, bool)>,
    blocks: [Block; MAXB],
}

static ST: Racy<A> = Racy::new(A {
    base: 0,
    bump: 0,
    n: 0,
    track: false,
    st: Stat { allocs: 0, frees: 0, refused: 0, live: 0 },
    allow_leak: false,
    refuse: false,
    deny: None,
    blocks: [Block { ptr: 0, size: 0, align: 0, kind: Kind::Heap, owner: 0, live: false }; MAXB],
});

pub struct Checking;

#[global_allocator]
static GLOBAL: Checking = Checking;

pub fn init() {
    unsafe {
        let p = sys::mmap(
            std::ptr::null_mut(),
            ARENA,
            sys::PROT_RW,
            sys::MAP_PRIVATE_ANON | sys::MAP_NORESERVE,
            -1,
            0,
        );
        if p as isize == -1 {
            eprintln!("ENGINE-ERROR mmap arena");
            std::process::exit(3)
        }
        ST.g().base = p as usize;
    }
}

pub fn reset() {
    let s = ST.g();
    s.bump = 0;
    s.n = 0;
    s.track = false;
    s.allow_leak = false;
    s.refuse = false;
    s.deny = None;
    s.st = Stat::default();
}

pub fn disable() { ST.g().track = false }

/// Leaked blocks are fine in this execution.
pub fn allow_leak() { ST.g().allow_leak = true }

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) { ST.g().track = self.0 }
}

/// Runs library code: its allocations are checked.
#[inline]
pub fn lib<R, F: FnOnce() -> R>(f: F) -> R {
    let _r = Restore(ST.g().track);
    ST.g().track = true;
    f()
}

/// Runs harness code called from library code.
#[inline]
pub fn off<R, F: FnOnce() -> R>(f: F) -> R {
    let _r = Restore(ST.g().track);
    ST.g().track = false;
    f()
}

pub fn allocs() -> Stat { ST.g().st }

fn in_arena(p: usize) -> bool {
    let s = ST.g();
    p >= s.base && p < s.base + ARENA
}

/// Takes a block out of the arena.
pub fn arena_alloc(size: usize, align: usize, kind: Kind, owner: u32) -> *mut u8 {
    let s = ST.g();
    let start = s.base + s.bump + RED;
    let start = (start + align - 1) & !(align - 1);
    // the block must not be accidentally more aligned than asked for
    let start = if start & (2 * align - 1) == 0 { start + align } else { start };
    let end = start + size + RED;
    if end > s.base + ARENA || s.n == MAXB {
        if kind == Kind::Guard {
            crate::engine::fatal("arena exhausted")
        }
        crate::fail!("one execution allocated more than {} blocks or {} bytes", MAXB, ARENA)
    }
    s.bump = end - s.base;
    unsafe {
        std::ptr::write_bytes((start - RED) as *mut u8, REDB, RED);
        std::ptr::write_bytes(start as *mut u8, FRESH, size);
        std::ptr::write_bytes((start + size) as *mut u8, REDB, RED);
    }
    s.blocks[s.n] = Block { ptr: start, size, align, kind, owner, live: true };
    s.n += 1;
    start as *mut u8
}

fn find(p: usize) -> Option<usize> {
    let s = ST.g();
    let mut dead = None;
    let mut i = s.n;
    while i > 0 {
        i -= 1;
        if s.blocks[i].ptr == p {
            if s.blocks[i].live {
                return Some(i)
            }
            if dead.is_none() {
                dead = Some(i)
            }
        }
    }
    dead
}

/// A block that a piece of memory does not lie in, though it should.
pub struct Outside {
    pub size: usize,
    pub released: bool,
}

/// Whether `n` bytes at `p` are in the arena, but not inside of one block that may be used.
pub fn outside(p: usize, n: usize) -> Option<Outside> {
    if !in_arena(p) {
        return None
    }
    let s = ST.g();
    // the blocks are in order of their addresses
    let (mut lo, mut hi) = (0, s.n);
    while lo < hi {
        let mid = (lo + hi) / 2;
        if s.blocks[mid].ptr <= p {
            lo = mid + 1
        } else {
            hi = mid
        }
    }
    if lo == 0 {
        return Some(Outside { size: 0, released: false })
    }
    let b = &s.blocks[lo - 1];
    if !b.live {
        return Some(Outside { size: b.size, released: true })
    }
    if p + n > b.ptr + b.size {
        return Some(Outside { size: b.size, released: false })
    }
    None
}

fn uniform(p: usize, n: usize, b: u8) -> bool {
    // written out by hand: this is the hottest loop and must not depend on the optimiser
    let w = u64::from_ne_bytes([b; 8]);
    let end = p + n;
    let mut q = p;
    unsafe {
        while q < end && q & 7 != 0 {
            if *(q as *const u8) != b {
                return false
            }
            q += 1;
        }
        while q + 8 <= end {
            if *(q as *const u64) != w {
                return false
            }
            q += 8;
        }
        while q < end {
            if *(q as *const u8) != b {
                return false
            }
            q += 1;
        }
    }
    true
}

fn check_block(i: usize) {
    let b = &ST.g().blocks[i];
    if !uniform(b.ptr - RED, RED, REDB) {
        crate::fail!("memory before a {:?} block of {} bytes was overwritten", b.kind, b.size)
    }
    if !uniform(b.ptr + b.size, RED, REDB) {
        crate::fail!("memory after a {:?} block of {} bytes was overwritten", b.kind, b.size)
    }
    if !b.live && !uniform(b.ptr, b.size, DEAD) {
        crate::fail!("a released {:?} block of {} bytes was written to", b.kind, b.size)
    }
}

/// Checks all red zones and all released blocks.
pub fn check_all() {
    let n = ST.g().n;
    let mut i = 0;
    while i < n {
        check_block(i);
        i += 1;
    }
}

/// Takes a lent block back: every later write to it is an error.
pub fn retire(p: *mut u8) {
    match find(p as usize) {
        Some(i) if ST.g().blocks[i].live => {
            check_block(i);
            let b = &mut ST.g().blocks[i];
            b.live = false;
            unsafe { std::ptr::write_bytes(b.ptr as *mut u8, DEAD, b.size) }
        }
        _ => crate::engine::fatal("retire of an unknown block"),
    }
}

pub fn end_of_execution() {
    check_all();
    let s = ST.g();
    if !s.allow_leak {
        for i in 0..s.n {
            let b = s.blocks[i];
            if b.live && b.kind == Kind::Heap {
                crate::fail!("a heap block of {} bytes was never released", b.size)
            }
        }
    }
}

/// A request by the library; `owner` 0 is the global allocator.
pub fn request(layout: Layout, owner: u32) -> *mut u8 {
    if layout.size() == 0 {
        crate::fail!("a zero-sized block was requested from the allocator")
    }
    if layout.size() > isize::MAX as usize - (layout.align() - 1) {
        crate::fail!("a block of {} bytes was requested, more than isize::MAX", layout.size())
    }
    if layout.size() > HUGE || ST.g().refuse || denied() || fault(F_ALLOC) {
        ST.g().st.refused += 1;
        return std::ptr::null_mut()
    }
    ST.g().st.allocs += 1;
    ST.g().st.live += 1;
    arena_alloc(layout.size(), layout.align(), Kind::Heap, owner)
}

fn take_back(p: *mut u8, layout: Layout, owner: u32, what: &str) -> usize {
    let i = match find(p as usize) {
        Some(i) => i,
        None => crate::fail!("{} of {:#x}, which is not a block", what, p as usize),
    };
    let b = ST.g().blocks[i];
    if b.kind != Kind::Heap {
        crate::fail!("{} of a buffer that was only lent", what)
    }
    if !b.live {
        crate::fail!("{} of a block of {} bytes that was already released", what, b.size)
    }
    if b.size != layout.size() || b.align != layout.align() {
        crate::fail!(
            "{} with size {} align {} of a block obtained with size {} align {}",
            what,
            layout.size(),
            layout.align(),
            b.size,
            b.align
        )
    }
    if b.owner != owner {
        crate::fail!("{} through allocator {} of a block of allocator {}", what, owner, b.owner)
    }
    i
}

pub fn release(p: *mut u8, layout: Layout, owner: u32) {
    if layout.size() == 0 {
        crate::fail!("a zero-sized block was released")
    }
    let _ = take_back(p, layout, owner, "release");
    ST.g().st.frees += 1;
    ST.g().st.live -= 1;
    retire(p)
}

pub fn resize(p: *mut u8, layout: Layout, new_size: usize, owner: u32) -> *mut u8 {
    let _ = take_back(p, layout, owner, "reallocation");
    if new_size == 0 {
        crate::fail!("reallocation to size zero")
    }
    if new_size > isize::MAX as usize - (layout.align() - 1) {
        crate::fail!("reallocation to {} bytes, more than isize::MAX", new_size)
    }
    if new_size > HUGE || ST.g().refuse || denied() || fault(F_ALLOC) {
        ST.g().st.refused += 1;
        return std::ptr::null_mut()
    }
    ST.g().st.allocs += 1;
    let q = arena_alloc(new_size, layout.align(), Kind::Heap, owner);
    unsafe { std::ptr::copy_nonoverlapping(p, q, layout.size().min(new_size)) }
    retire(p);
    q
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ST.g().track && !std::thread::panicking() {
            ST.g().track = false;
            let p = request(layout, 0);
            ST.g().track = true;
            p
        } else {
            System.alloc(layout)
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        if in_arena(p as usize) {
            let t = ST.g().track;
            ST.g().track = false;
            release(p, layout, 0);
            ST.g().track = t;
        } else if layout.size() == 0 || (p as usize) < 4096 || (ST.g().track && !std::thread::panicking()) {
            let t = ST.g().track;
            ST.g().track = false;
            crate::fail!("release of {:#x} (size {}), which the vector never obtained [tracked {}]", p as usize, layout.size(), t)
        } else {
            System.dealloc(p, layout)
        }
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        if in_arena(p as usize) {
            let t = ST.g().track;
            ST.g().track = false;
            let q = resize(p, layout, new_size, 0);
            ST.g().track = t;
            q
        } else if ST.g().track && !std::thread::panicking() {
            ST.g().track = false;
            crate::fail!("reallocation of {:#x}, which the vector never obtained", p as usize)
        } else {
            System.realloc(p, layout, new_size)
        }
    }
}

/// An allocator of its own, told apart by its number.
#[cfg(feature = "nightly")]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tagged(pub u32);

#[cfg(feature = "nightly")]
impl Default for Tagged {
    fn default() -> Self { Tagged(9) }
}

#[cfg(feature = "nightly")]
unsafe impl std::alloc::Allocator for Tagged {
    fn allocate(&self, layout: Layout) -> Result<std::ptr::NonNull<[u8]>, std::alloc::AllocError> {
        off(|| {
            let p = request(layout, self.0);
            match std::ptr::NonNull::new(p) {
                Some(p) => Ok(unsafe { std::slice::from_raw_parts_mut(p.as_ptr(), layout.size()) }.into()),
                None => Err(std::alloc::AllocError),
            }
        })
    }
    unsafe fn deallocate(&self, p: std::ptr::NonNull<u8>, layout: Layout) { off(|| release(p.as_ptr(), layout, self.0)) }
    unsafe fn grow(&self, p: std::ptr::NonNull<u8>, old: Layout, new: Layout) -> Result<std::ptr::NonNull<[u8]>, std::alloc::AllocError> {
        off(|| {
            if new.size() < old.size() {
                crate::fail!("an allocator was asked to grow a block of {} bytes to {}", old.size(), new.size())
            }
            if new.align() != old.align() {
                crate::fail!("an allocator was asked to change the alignment of a block from {} to {}", old.align(), new.align())
            }
            let p = resize(p.as_ptr(), old, new.size(), self.0);
            match std::ptr::NonNull::new(p) {
                Some(p) => Ok(unsafe { std::slice::from_raw_parts_mut(p.as_ptr(), new.size()) }.into()),
                None => Err(std::alloc::AllocError),
            }
        })
    }
}

/// Refuse everything from now on.
pub fn refuse(b: bool) { ST.g().refuse = b }

/// Refuse the `n`-th request from now on (counting from 0), and all that follow it if `on`.
pub fn deny(n: u32, on: bool) { ST.g().deny = Some((n, on)) }

fn denied() -> bool {
    let d = &mut ST.g().deny;
    match *d {
        None => false,
        Some((0, on)) => {
            if !on {
                *d = None
            }
            true
        }
        Some((n, on)) => {
            *d = Some((n - 1, on));
            false
        }
    }
}

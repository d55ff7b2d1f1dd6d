//! The few libc calls we need (std links libc anyway).
use std::os::raw::{c_char, c_int, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn waitpid(pid: c_int, status: *mut c_int, opts: c_int) -> c_int;
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    pub fn open(path: *const c_char, flags: c_int, ...) -> c_int;
    pub fn ftruncate(fd: c_int, len: i64) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn alarm(s: u32) -> u32;
}

pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE_ANON: c_int = 0x22;
pub const MAP_NORESERVE: c_int = 0x4000;

/// What a forked child did.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Child {
    Exit(i32),
    Signal(i32),
}

/// Runs `f` in a forked child and reports how it ended. The child is given 20 s.
pub fn in_child<F: FnOnce() -> i32>(f: F) -> Child {
    unsafe {
        let pid = fork();
        if pid < 0 {
            eprintln!("ENGINE-ERROR fork failed");
            std::process::exit(3)
        }
        if pid == 0 {
            alarm(20);
            if !crate::engine::verbose() {
                let null = open(b"/dev/null\0".as_ptr() as *const c_char, 2, 0);
                dup2(null, 1);
                dup2(null, 2);
            }
            let code = f();
            _exit(code)
        }
        let mut st: c_int = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f == 0 {
            Child::Exit((st >> 8) & 0xff)
        } else {
            Child::Signal(st & 0x7f)
        }
    }
}

static WATCH: crate::engine::Racy<bool> = crate::engine::Racy::new(false);
/// Whether copies are looked at.
pub fn watch_copies(on: bool) { *WATCH.g() = on }

extern "C" {
    /// the C library's memmove, under a name that is not taken over below
    fn __memmove_chk(d: *mut c_void, s: *const c_void, n: usize, room: usize) -> *mut c_void;
}

static ROOM: usize = usize::MAX;
#[inline(always)]
unsafe fn moved(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    // if the compiler knew the room, it would make this a call of memmove again
    __memmove_chk(d, s, n, std::ptr::read_volatile(&ROOM))
}

#[cold]
#[inline(never)]
unsafe fn watched(d: *mut c_void, s: *const c_void, n: usize, apart: bool) {
    let gap = if d as usize > s as usize { d as usize - s as usize } else { s as usize - d as usize };
    // (A copy onto itself is fine: the compiler itself asks for those.)
    let why = if apart && gap < n && gap != 0 {
        Some(("that overlap, as if they did not", gap))
    } else if n == 0 {
        None
    } else if let Some(w) = crate::alloc::outside(s as usize, n) {
        Some((["from beyond a block", "from a released block"][w.released as usize], w.size))
    } else if let Some(w) = crate::alloc::outside(d as usize, n) {
        Some((["to beyond a block", "to a released block"][w.released as usize], w.size))
    } else {
        None
    };
    if let Some((why, x)) = why {
        watch_copies(false);
        crate::fail!("{} bytes were copied {} ({} bytes)", n, why, x)
    }
}

/// In place of the C library's: while watched, copies between places that overlap, from or to
/// places outside of the block they start in, or in blocks that were released, are violations.
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    if *WATCH.g() {
        watched(d, s, n, true)
    }
    moved(d, s, n)
}

/// As `memcpy`, but the places may overlap.
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    if *WATCH.g() {
        watched(d, s, n, false)
    }
    moved(d, s, n)
}

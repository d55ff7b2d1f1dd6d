//! A user-defined storage that follows the documented contract to the letter and no further: it grants exactly what
//! is asked, moves its buffer on every successful reservation, and poisons the old one.
use crate::alloc::{arena_alloc, retire, Kind};
use crate::engine::Racy;
use crate::off;
use crate::tok::Elem;
use generic_vec::raw::{Storage, StorageWithCapacity};
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, Default)]
pub struct Asked {
    pub reserve: u64,
    pub try_reserve: u64,
    /// requests that already fit
    pub needless: u64,
}

static ASKED: Racy<Asked> = Racy::new(Asked { reserve: 0, try_reserve: 0, needless: 0 });
/// Limit used by storages made through `with_capacity`/`default`.
static LIMIT: Racy<usize> = Racy::new(usize::MAX);

/// Storages alive now.
static LIVE: Racy<i64> = Racy::new(0);
static NOLEAK: Racy<bool> = Racy::new(true);

/// Whether storages grow up to a limit.
static LIMITED: Racy<bool> = Racy::new(false);
/// Slots granted beyond what is asked.
static EXTRA: Racy<usize> = Racy::new(0);

pub fn reset() {
    *EXTRA.g() = 0;
    *LIMITED.g() = false;
    *LIVE.g() = 0;
    *NOLEAK.g() = true;
    *LIMIT.g() = usize::MAX;
    *ASKED.g() = Asked::default();
}
pub fn live() -> i64 { *LIVE.g() }
pub fn allow_leak() { *NOLEAK.g() = false }
pub fn end_of_execution() {
    if *NOLEAK.g() && *LIVE.g() != 0 {
        crate::fail!("{} storages were never released", *LIVE.g())
    }
}

pub fn asked() -> Asked { *ASKED.g() }
pub fn forget_asked() { *ASKED.g() = Asked::default() }
pub fn limited() { *LIMITED.g() = true }
pub fn is_limited() -> bool { *LIMITED.g() }
pub fn set_extra(n: usize) { *EXTRA.g() = n }
pub fn set_limit(n: usize) { *LIMIT.g() = n }

pub struct Spy<E> {
    ptr: *mut u8,
    cap: usize,
    limit: usize,
    mark: PhantomData<E>,
}

impl<E: Elem> Spy<E> {
    pub fn new(cap: usize, limit: usize) -> Self {
        let ptr = Self::block(cap);
        *LIVE.g() += 1;
        Spy { ptr, cap, limit, mark: PhantomData }
    }
    fn block(cap: usize) -> *mut u8 {
        off(|| arena_alloc(cap * std::mem::size_of::<E>(), std::mem::align_of::<E>(), Kind::Guard, 0))
    }
    fn grow(&mut self, n: usize) {
        let p = Self::block(n);
        off(|| unsafe {
            std::ptr::copy_nonoverlapping(self.ptr, p, self.cap * std::mem::size_of::<E>());
            retire(self.ptr);
        });
        self.ptr = p;
        self.cap = n;
    }
}

impl<E> Drop for Spy<E> {
    fn drop(&mut self) {
        *LIVE.g() -= 1;
        off(|| retire(self.ptr))
    }
}

unsafe impl<E: Elem> Storage<E> for Spy<E> {
    const IS_ALIGNED: bool = true;
    fn capacity(&self) -> usize { self.cap }
    fn as_ptr(&self) -> *const E { self.ptr as *const E }
    fn as_mut_ptr(&mut self) -> *mut E { self.ptr as *mut E }
    fn reserve(&mut self, n: usize) {
        ASKED.g().reserve += 1;
        if n <= self.cap {
            ASKED.g().needless += 1;
            return
        }
        if n > self.limit || n > 4096 {
            panic!("spy is full")
        }
        self.grow(n.saturating_add(*EXTRA.g()).min(self.limit))
    }
    fn try_reserve(&mut self, n: usize) -> bool {
        ASKED.g().try_reserve += 1;
        if n <= self.cap {
            ASKED.g().needless += 1;
            return true
        }
        if n > self.limit || n > 4096 {
            return false
        }
        self.grow(n.saturating_add(*EXTRA.g()).min(self.limit));
        true
    }
}

impl<E: Elem> Default for Spy<E> {
    fn default() -> Self { Spy::new(0, *LIMIT.g()) }
}

unsafe impl<E: Elem> StorageWithCapacity<E> for Spy<E> {
    fn with_capacity(n: usize) -> Self {
        let l = *LIMIT.g();
        if n > l || n > 4096 {
            panic!("spy is full")
        }
        Spy::new(n, l)
    }
}

//! The reference sequence and the comparison of a real vector with it.
use crate::engine::{mix, obs, state, step};
use crate::tok::{Elem, Injected};
use crate::{lib, off};
use generic_vec::raw::Storage;
use generic_vec::GenericVec;

/// One element of the reference sequence. `id == 0` means: a clone whose identity is not known yet.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct M {
    pub id: u32,
    pub val: u8,
}

impl M {
    pub fn of<E: Elem>(e: &E) -> M { M { id: e.id(), val: e.val() } }
    pub fn fresh(val: u8) -> M { M { id: 0, val } }
}

#[derive(Debug)]
pub enum Outcome<R> {
    Ret(R),
    /// the library (or the standard library on its behalf) panicked
    Panic,
    /// the injected panic came through
    Injected(u32),
}

impl<R> Outcome<R> {
    pub fn panicked(&self) -> bool { matches!(self, Outcome::Panic) }
    pub fn injected(&self) -> bool { matches!(self, Outcome::Injected(_)) }
    pub fn ret(self, what: &str) -> R {
        match self {
            Outcome::Ret(r) => r,
            Outcome::Panic => crate::fail!("{}: panicked although the request is valid", what),
            Outcome::Injected(_) => crate::fail!("{}: the injected panic appeared where none was injected", what),
        }
    }
    pub fn must_panic(self, what: &str) {
        match self {
            Outcome::Panic => (),
            Outcome::Ret(_) => crate::fail!("{}: returned although the request must be refused by a panic", what),
            Outcome::Injected(_) => crate::fail!("{}: the injected panic appeared where none was injected", what),
        }
    }
}

/// Runs library code and catches its panics.
pub fn attempt<R, F: FnOnce() -> R>(f: F) -> Outcome<R> {
    step();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(f))) {
        Ok(r) => Outcome::Ret(r),
        Err(p) => match caught(p) {
            Some(i) => Outcome::Injected(i),
            None => Outcome::Panic,
        },
    }
}

#[inline(never)]
fn caught(p: Box<dyn std::any::Any + Send>) -> Option<u32> {
    off(|| match p.downcast::<Injected>() {
        Ok(i) => Some(i.0),
        Err(p) => {
            if crate::engine::verbose() {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
                crate::log!("caught panic: {}", m.unwrap_or_default());
            }
            None
        }
    })
}

/// Runs library code that must not panic.
pub fn must<R, F: FnOnce() -> R>(what: &str, f: F) -> R { attempt(f).ret(what) }

/// The reference sequence for one vector.
#[derive(Clone, Debug)]
pub struct W {
    pub v: Vec<M>,
    /// the most elements the storage can ever hold; `None` if it can grow
    pub cap: Option<usize>,
}

impl W {
    pub fn new(cap: Option<usize>) -> W { W { v: Vec::new(), cap } }
    pub fn len(&self) -> usize { self.v.len() }
    /// Whether `n` more elements can be held.
    pub fn fits(&self, n: usize) -> bool {
        match self.cap {
            Some(c) => n <= c && self.v.len() <= c - n,
            None => true,
        }
    }
}

/// Compares a slice with a reference sequence, and learns the identities of clones.
pub fn same<E: Elem>(what: &str, s: &[E], m: &mut [M]) {
    if s.len() != m.len() {
        crate::fail!("{}: length is {}, expected {} ({:?})", what, s.len(), m.len(), m)
    }
    if s.as_ptr() as usize % std::mem::align_of::<E>() != 0 {
        crate::fail!("{}: elements are misaligned", what)
    }
    for i in 0..m.len() {
        let e = &s[i];
        let (id, val) = (e.id(), e.val());
        if val != m[i].val && E::ID {
            crate::fail!("{}: element {} has value {}, expected {} ({:?})", what, i, val, m[i].val, m)
        }
        if m[i].id == 0 {
            if E::OWNED && E::ID && m.iter().any(|x| x.id == id) {
                crate::fail!("{}: element {} (id {}) appears twice", what, i, id)
            }
            m[i].id = id
        } else if E::ID && id != m[i].id {
            crate::fail!("{}: element {} has identity {}, expected {} ({:?})", what, i, id, m[i].id, m)
        }
    }
}

/// Checks one returned element.
pub fn same1<E: Elem>(what: &str, e: &E, m: M) { same(what, std::slice::from_ref(e), &mut [m]) }

/// What is visible of a vector, whatever its storage.
pub struct Seen<'a, E> {
    pub len: usize,
    pub cap: usize,
    pub slice: &'a [E],
    pub empty: bool,
    pub full: bool,
    pub remaining: usize,
}

pub fn seen<E: Elem, S: ?Sized + Storage<E>>(v: &GenericVec<E, S>) -> Seen<'_, E> {
    Seen {
        len: v.len(),
        cap: v.capacity(),
        slice: v.as_slice(),
        empty: v.is_empty(),
        full: v.is_full(),
        remaining: v.remaining_capacity(),
    }
}

/// Full comparison of a vector with its reference after a call.
#[inline]
pub fn settle<E: Elem, S: ?Sized + Storage<E>>(what: &str, v: &GenericVec<E, S>, m: &mut W) { settle_seen(what, seen(v), m) }

#[inline(never)]
fn settle_seen<E: Elem>(what: &str, v: Seen<'_, E>, m: &mut W) {
    if v.len > v.cap {
        crate::fail!("{}: length {} exceeds capacity {}", what, v.len, v.cap)
    }
    if v.len != m.len() {
        crate::fail!("{}: length is {}, expected {} ({:?})", what, v.len, m.len(), m.v)
    }
    same(what, v.slice, &mut m.v);
    if v.empty != m.v.is_empty() || v.full != (v.len == v.cap) {
        crate::fail!("{}: is_empty/is_full disagree with the length", what)
    }
    if v.remaining != v.cap - v.len {
        crate::fail!("{}: remaining_capacity is {}", what, v.remaining)
    }
    if !E::ZST {
        if let Some(c) = m.cap {
            if v.cap > c || v.cap != c && !crate::spy::is_limited() {
                crate::fail!("{}: the capacity of a fixed storage is {}, expected {}", what, v.cap, c)
            }
        }
    }
    crate::alloc::check_all();
    let mut h = 0x77;
    for x in &m.v {
        h = mix(h, x.val as u64);
    }
    obs(h);
    state(mix(h, if E::ZST { 0 } else { (v.cap - v.len) as u64 }));
}

/// Checks that exactly `n` owned elements exist.
pub fn owned<E: Elem>(what: &str, n: usize) {
    if E::OWNED && crate::tok::live() != n as i64 {
        crate::fail!("{}: {} elements are alive, expected {}", what, crate::tok::live(), n)
    }
}

//! Element types whose every creation, copy, move and destruction is accounted for.
use generic_vec::iter::Cursor;
use generic_vec::raw::Storage;
use crate::engine::{fault, Racy, F_CALL, F_CLONE, F_DROP};
use crate::off;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};

/// The payload of an injected panic.
#[derive(Debug)]
pub struct Injected(pub u32);

const MAXID: usize = 8192;

struct R {
    next: u32,
    live: [u8; MAXID],
    val: [u8; MAXID],
    parent: [u32; MAXID],
    n_live: i64,
    z_live: i64,
    z_made: u64,
    clones: u64,
    drops: u64,
    drop_hash: u64,
    allow_leak: bool,
    lost: i64,
}

static REG: Racy<R> = Racy::new(R {
    next: 1,
    live: [0; MAXID],
    val: [0; MAXID],
    parent: [0; MAXID],
    n_live: 0,
    z_live: 0,
    z_made: 0,
    clones: 0,
    drops: 0,
    drop_hash: 0,
    allow_leak: false,
    lost: 0,
});

pub fn reset() {
    let r = REG.g();
    unsafe { std::ptr::write_bytes(r.live.as_mut_ptr(), 0, r.next as usize) }
    r.next = 1;
    r.n_live = 0;
    r.z_live = 0;
    r.z_made = 0;
    r.clones = 0;
    r.drops = 0;
    r.drop_hash = 7;
    r.allow_leak = false;
    r.lost = 0;
    EQS.g().1 = 0;
}

pub fn allow_leak() { REG.g().allow_leak = true }
/// Owned elements alive now.
pub fn live() -> i64 { REG.g().n_live + REG.g().z_live - REG.g().lost }
/// `n` elements were leaked on purpose and are not counted any more.
pub fn lose(n: i64) { REG.g().lost += n }
pub fn clones() -> u64 { REG.g().clones }
pub fn drops() -> u64 { REG.g().drops }
/// Order-sensitive digest of the drops so far.
pub fn drop_hash() -> u64 { REG.g().drop_hash }
pub fn is_live(id: u32) -> bool { (id as usize) < MAXID && REG.g().live[id as usize] == 1 }
pub fn parent(id: u32) -> u32 { REG.g().parent[id as usize] }

pub fn end_of_execution() {
    let r = REG.g();
    if r.z_live < 0 {
        crate::fail!("more zero-sized elements were dropped than existed")
    }
    if !r.allow_leak && live() != 0 {
        let l: Vec<u32> = off(|| (1..r.next).filter(|&i| r.live[i as usize] == 1).collect());
        crate::fail!("elements were leaked: {} still alive at the end, ids {:?}, zero-sized {}", live(), l, r.z_live)
    }
}

static EQS: Racy<([(u32, u32); 4096], usize)> = Racy::new(([(0, 0); 4096], 0));

/// Records which elements were compared for equality, in order.
pub fn log_eq(a: u32, b: u32) {
    let l = EQS.g();
    if l.1 < 4096 {
        l.0[l.1] = (a, b);
        l.1 += 1
    }
}
/// The comparisons since the last call.
pub fn compared() -> Vec<(u32, u32)> {
    off(|| {
        let l = EQS.g();
        let v = l.0[..l.1].to_vec();
        l.1 = 0;
        v
    })
}

/// A value that differs between neighbours.
pub fn next_val() -> u8 { (REG.g().next % 7) as u8 }

fn fresh(val: u8, parent: u32, max: usize) -> u32 {
    let r = REG.g();
    let id = r.next;
    if id as usize >= max {
        crate::fail!("one execution created more than {} elements", max)
    }
    r.next += 1;
    r.live[id as usize] = 1;
    r.val[id as usize] = val;
    r.parent[id as usize] = parent;
    r.n_live += 1;
    id
}

#[inline]
fn valid(id: u32, what: &str) -> u8 {
    let r = REG.g();
    if id == 0 || id >= r.next {
        crate::fail!("{}: garbage was read as an element (id {:#x})", what, id)
    }
    if r.live[id as usize] != 1 {
        crate::fail!("{}: element {} was already dropped", what, id)
    }
    r.val[id as usize]
}

fn dropped(id: u32) {
    let _ = valid(id, "drop");
    let r = REG.g();
    r.live[id as usize] = 2;
    r.n_live -= 1;
    r.drops += 1;
    r.drop_hash = crate::engine::mix(r.drop_hash, id as u64);
    if !std::thread::panicking() && fault(F_DROP) {
        inject(2)
    }
}

/// Raises the injected panic.
pub fn inject(why: u32) -> ! { std::panic::resume_unwind(off(|| Box::new(Injected(why)))) }

/// An element type used in the checks.
pub trait Elem: Clone + PartialEq + Eq + PartialOrd + Ord + Hash + fmt::Debug + 'static {
    /// whether elements have an identity of their own
    const ID: bool;
    /// whether dropping is tracked
    const OWNED: bool;
    const NAME: &'static str;
    /// A new element with the given value. Values are below 8.
    fn mk(val: u8) -> Self;
    /// The identity; fails if this is not an element that is alive.
    fn id(&self) -> u32;
    fn val(&self) -> u8;
    /// changes the value in place
    fn set_val(&mut self, val: u8);
    const ZST: bool = std::mem::size_of::<Self>() == 0;
    /// whether `several` copies
    const COPY: bool = false;
    /// Writes several elements at once: copied for plain data, moved for everything else.
    fn several<S: ?Sized + Storage<Self>>(c: &mut Cursor<'_, Self, S>, es: &mut Vec<Self>, front: bool) {
        unsafe {
            if front {
                c.as_raw_cursor_mut().write_slice_front(es)
            } else {
                c.as_raw_cursor_mut().write_slice_back(es)
            }
            es.set_len(0);
        }
    }
}

macro_rules! copies {
    () => {
        const COPY: bool = true;
        fn several<S: ?Sized + Storage<Self>>(c: &mut Cursor<'_, Self, S>, es: &mut Vec<Self>, front: bool) {
            if front {
                c.write_slice_front(es)
            } else {
                c.write_slice_back(es)
            }
        }
    };
}

macro_rules! tracked {
    ($name:ident, $s:expr, $max:expr, $align:literal, $repr:ty, $enc:expr, $dec:expr) => {
        #[repr(C, align($align))]
        pub struct $name($repr);
        impl $name {
            #[inline]
            fn raw(&self) -> u32 {
                let f: fn(&$repr) -> u32 = $dec;
                f(&self.0)
            }
            fn make(val: u8, parent: u32) -> Self {
                let f: fn(u32) -> $repr = $enc;
                $name(f(fresh(val, parent, $max)))
            }
        }
        impl Elem for $name {
            const ID: bool = true;
            const OWNED: bool = true;
            const NAME: &'static str = $s;
            fn mk(val: u8) -> Self { Self::make(val, 0) }
            fn id(&self) -> u32 {
                let i = self.raw();
                valid(i, "use");
                i
            }
            fn val(&self) -> u8 { valid(self.raw(), "use") }
            fn set_val(&mut self, val: u8) {
                let i = self.id();
                REG.g().val[i as usize] = val
            }
        }
        impl Drop for $name {
            fn drop(&mut self) { dropped(self.raw()) }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let v = valid(self.raw(), "clone");
                if fault(F_CLONE) {
                    inject(1)
                }
                REG.g().clones += 1;
                Self::make(v, self.raw())
            }
        }
        by_val!($name);
    };
}

macro_rules! by_val {
    ($name:ident) => {
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                if fault(F_CALL) {
                    inject(3)
                }
                log_eq(self.id(), o.id());
                self.val() == o.val()
            }
        }
        impl Eq for $name {}
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering { self.val().cmp(&o.val()) }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) { self.val().hash(h) }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "<{}>", self.val()) }
        }
    };
}

const K: u64 = 0x5EED_0000_1357_9BDF;
tracked!(T16, "T16", MAXID, 8, [u64; 2], |i| [K ^ ((i as u64) << 32), i as u64], |r| if r[0] ^ ((r[1]) << 32) == K {
    r[1] as u32
} else {
    0xFFFF_FFFF
});
tracked!(T1, "T1", 0x9F, 1, u8, |i| i as u8, |r| *r as u32);
tracked!(T3, "T3", 0xA000, 1, [u8; 3], |i| [i as u8, (i >> 8) as u8, 0x5A ^ i as u8], |r| if r[2] == 0x5A ^ r[0] {
    r[0] as u32 | (r[1] as u32) << 8
} else {
    0xFFFF_FFFF
});
tracked!(T4, "T4", MAXID, 4, u32, |i| i * 3 + 0x0101, |r| if *r < 0x0101 || (*r - 0x0101) % 3 != 0 { 0xFFFF_FFFF } else { (*r - 0x0101) / 3 });
tracked!(T2, "T2", 0x5000, 2, u16, |i| (i * 3 + 0x0101) as u16, |r| if *r < 0x0101 || (*r - 0x0101) % 3 != 0 { 0xFFFF_FFFF } else { (*r as u32 - 0x0101) / 3 });
tracked!(T8, "T8", MAXID, 8, u64, |i| (i as u64) << 32 | !i as u64, |r| if (*r >> 32) as u32 == !(*r as u32) { (*r >> 32) as u32 } else { 0xFFFF_FFFF });
tracked!(T24, "T24", MAXID, 8, [u64; 3], |i| [i as u64, K ^ i as u64, !(i as u64)], |r| if r[0] == !r[2] && r[0] ^ K == r[1] { r[0] as u32 } else { 0xFFFF_FFFF });
tracked!(T32, "T32", MAXID, 32, [u64; 4], |i| [i as u64, !(i as u64), K, i as u64], |r| if r[0] == !r[1] && r[2] == K && r[3] == r[0] {
    r[0] as u32
} else {
    0xFFFF_FFFF
});

fn big(i: u32) -> [u64; 131] {
    let mut b = [K; 131];
    b[0] = i as u64;
    b[64] = !(i as u64);
    b[130] = i as u64 ^ K;
    b
}
fn small(b: &[u64; 131]) -> u32 {
    if b[0] == !b[64] && b[0] ^ K == b[130] && b[1] == K && b[129] == K {
        b[0] as u32
    } else {
        0xFFFF_FFFF
    }
}
tracked!(TB, "TB", MAXID, 8, [u64; 131], big, small);

/// A zero-sized element that counts.
pub struct TZ(());
impl Elem for TZ {
    const ID: bool = false;
    const OWNED: bool = true;
    const NAME: &'static str = "TZ";
    fn mk(_: u8) -> Self {
        REG.g().z_live += 1;
        REG.g().z_made += 1;
        TZ(())
    }
    fn id(&self) -> u32 { 0 }
    fn val(&self) -> u8 { 0 }
    fn set_val(&mut self, _: u8) {}
}
impl Drop for TZ {
    fn drop(&mut self) {
        let r = REG.g();
        r.z_live -= 1;
        r.drops += 1;
        r.drop_hash = crate::engine::mix(r.drop_hash, 1);
        if r.z_live < 0 {
            crate::fail!("a zero-sized element was dropped more often than it was made")
        }
        if !std::thread::panicking() && fault(F_DROP) {
            inject(2)
        }
    }
}
impl Clone for TZ {
    fn clone(&self) -> Self {
        if fault(F_CLONE) {
            inject(1)
        }
        REG.g().clones += 1;
        TZ::mk(0)
    }
}
by_val!(TZ);

/// Plain data. The identity is part of the data and is copied along with it.
macro_rules! plain {
    ($name:ident, $s:expr, $max:expr, $align:literal, $repr:ty, $enc:expr, $dec:expr) => {
        #[derive(Clone, Copy)]
        #[repr(C, align($align))]
        pub struct $name($repr);
        impl Elem for $name {
            const ID: bool = true;
            const OWNED: bool = false;
            const NAME: &'static str = $s;
            copies!();
            fn mk(val: u8) -> Self {
                let r = REG.g();
                let id = r.next;
                if id >= $max {
                    crate::engine::fatal("out of plain ids")
                }
                r.next += 1;
                r.val[id as usize] = val;
                let f: fn(u32) -> $repr = $enc;
                $name(f(id))
            }
            fn id(&self) -> u32 {
                let f: fn(&$repr) -> u32 = $dec;
                let i = f(&self.0);
                if i == 0 || i >= REG.g().next {
                    crate::fail!("garbage was read as an element ({:#x})", i)
                }
                i
            }
            fn val(&self) -> u8 { REG.g().val[self.id() as usize] }
            fn set_val(&mut self, val: u8) { *self = Self::mk(val) }
        }
        impl Default for $name {
            fn default() -> Self { Self::mk(0) }
        }
        by_val!($name);
    };
}
plain!(C16, "C16", MAXID as u32, 8, [u64; 2], |i| [i as u64, i as u64 ^ K], |r| if r[0] ^ K == r[1] { r[0] as u32 } else { 0xFFFF_FFFF });
plain!(C1, "C1", 160, 1, u8, |i| i as u8, |r| *r as u32);
plain!(C2, "C2", 160, 2, u16, |i| (i << 8 | (!i & 0xFF)) as u16, |r| if *r >> 8 == !*r & 0xFF { *r as u32 >> 8 } else { 0xFFFF_FFFF });
plain!(C4, "C4", 0x4000, 4, u32, |i| i << 16 | (!i & 0xFFFF), |r| if *r >> 16 == !*r & 0xFFFF { *r >> 16 } else { 0xFFFF_FFFF });
plain!(C8, "C8", MAXID as u32, 8, u64, |i| (i as u64) << 32 | !i as u64, |r| if (*r >> 32) as u32 == !(*r as u32) { (*r >> 32) as u32 } else { 0xFFFF_FFFF });
plain!(C3, "C3", 160, 1, [u8; 3], |i| [i as u8, !(i as u8), i as u8], |r| if r[0] == !r[1] && r[2] == r[0] { r[0] as u32 } else { 0xFFFF_FFFF });
// a kilobyte and a bit, with the identity at both ends and in the middle
plain!(CB, "CB", MAXID as u32, 8, [u64; 131], big, small);

/// Zero-sized plain data.
#[derive(Clone, Copy, Default)]
pub struct CZ;
impl Elem for CZ {
    const ID: bool = false;
    const OWNED: bool = false;
    const NAME: &'static str = "CZ";
    copies!();
    fn mk(_: u8) -> Self { CZ }
    fn id(&self) -> u32 { 0 }
    fn val(&self) -> u8 { 0 }
    fn set_val(&mut self, _: u8) {}
}
by_val!(CZ);

/// Zero-sized plain data with a large alignment.
#[derive(Clone, Copy, Default)]
#[repr(C, align(64))]
pub struct CZA([u64; 0]);
impl Elem for CZA {
    const ID: bool = false;
    const OWNED: bool = false;
    const NAME: &'static str = "CZA";
    copies!();
    fn mk(_: u8) -> Self { CZA([]) }
    fn id(&self) -> u32 {
        if self as *const _ as usize % 64 != 0 {
            crate::fail!("misaligned reference to a zero-sized element")
        }
        0
    }
    fn val(&self) -> u8 { 0 }
    fn set_val(&mut self, _: u8) {}
}
by_val!(CZA);

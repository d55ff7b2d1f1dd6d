//! Depth-first enumeration of decisions, small enough to be interpreted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Racy<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self { Racy(UnsafeCell::new(t)) }
    #[allow(clippy::mut_from_ref)]
    pub fn g(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}

pub struct E {
    trail: Vec<(u16, u16)>,
    pos: usize,
    /// user code may still panic this often
    pub faults: u32,
    /// and only inside calls into the crate
    pub zone: bool,
    pub may_leak: bool,
    /// elements made
    pub made: u8,
    pub steps: u64,
    pub execs: u64,
    print: bool,
}

static EN: Racy<E> = Racy::new(E { trail: Vec::new(), pos: 0, faults: 0, zone: false, may_leak: false, made: 0, steps: 0, execs: 0, print: false });
pub fn e() -> &'static mut E { EN.g() }

/// Blocks owned now.
static BLOCKS: Racy<i64> = Racy::new(0);
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        *BLOCKS.g() += 1;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        *BLOCKS.g() -= 1;
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

pub fn choose(n: usize) -> usize {
    let e = e();
    if n <= 1 {
        return 0
    }
    if e.pos == e.trail.len() {
        e.trail.push((0, n as u16))
    }
    let (c, m) = e.trail[e.pos];
    if m == 0 && (c as usize) < n {
        // replaying: the alternatives are learned on the way
        e.trail[e.pos].1 = n as u16
    } else if m as usize != n {
        fail("ENGINE-ERROR the harness is not deterministic")
    }
    e.pos += 1;
    c as usize
}

pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choose(xs.len())] }
/// One of the first `k`, or any of them.
pub fn few<T: Copy>(wide: bool, k: usize, xs: &[T]) -> T { xs[choose(if wide { xs.len() } else { k })] }

/// Whether user code panics here.
pub fn fault() -> bool {
    let e = e();
    if !e.zone || e.faults == 0 || std::thread::panicking() {
        return false
    }
    if choose(2) == 1 {
        e.faults -= 1;
        e.may_leak = true;
        return true
    }
    false
}

pub fn text() -> String {
    let mut s = String::new();
    for (i, t) in e().trail.iter().enumerate() {
        if i > 0 {
            s.push(',')
        }
        s.push_str(&t.0.to_string())
    }
    if s.is_empty() {
        s.push('-')
    }
    s
}

pub fn fail(what: &str) -> ! {
    let en = e();
    en.trail.truncate(en.pos);
    println!("UB-VIOLATION {} :: {}", text(), what);
    std::process::exit(1)
}

fn once(faults: u32, body: fn(), live: fn() -> i64) {
    let en = e();
    en.pos = 0;
    en.faults = faults;
    en.zone = false;
    en.made = 0;
    en.may_leak = false;
    if en.print {
        println!("EXEC {}", text())
    }
    let (blocks, was) = (*BLOCKS.g(), live());
    if std::panic::catch_unwind(body).is_err() {
        fail("a panic escaped")
    }
    let (blocks, was) = (*BLOCKS.g() - blocks, live() - was);
    if !e().may_leak && was != 0 {
        fail(&format!("{} elements were not dropped", was))
    }
    if !e().may_leak && blocks != 0 {
        fail(&format!("{} blocks were not released", blocks))
    }
    if was < 0 || blocks < 0 {
        fail("more was dropped than existed")
    }
    e().execs += 1
}

/// Runs the executions of one group that belong to part number `part` of `parts`, which is decided by the first three
/// decisions, or the one that is given.
pub fn run(name: &str, faults: u32, body: fn(), live: fn() -> i64, part: u64, parts: u64, print: bool, replay: Option<&str>) {
    let en = e();
    en.print = print;
    en.trail = Vec::with_capacity(4096);
    en.execs = 0;
    en.steps = 0;
    if let Some(t) = replay {
        if t != "-" {
            for x in t.split(',') {
                en.trail.push((x.parse().unwrap(), 0))
            }
        }
        once(faults, body, live);
        println!("UB-REPLAYED");
        return
    }
    let mut n = 0u64;
    let mut mine = part == 0;
    loop {
        once(faults, body, live);
        let cut = 3.min(e().pos);
        let t = &mut e().trail;
        if !mine {
            // executed only to see the tree
            t.truncate(cut);
            e().execs -= 1
        } else {
            t.truncate(e().pos)
        }
        loop {
            match e().trail.pop() {
                None => {
                    println!("UB-STATS {} {} {}", name, e().execs, e().steps);
                    return
                }
                Some((c, m)) if c + 1 < m => {
                    let at = e().trail.len();
                    e().trail.push((c + 1, m));
                    if at < cut {
                        n += 1;
                        mine = (n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) % parts == part
                    }
                    break
                }
                Some(_) => (),
            }
        }
    }
}

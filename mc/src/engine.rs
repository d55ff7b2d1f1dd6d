//! Depth-first enumeration of decision vectors, with replay.
use crate::sys;
use std::cell::UnsafeCell;
use std::collections::HashSet;

pub struct Racy<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for Racy<T> {}
impl<T> Racy<T> {
    pub const fn new(t: T) -> Self { Racy(UnsafeCell::new(t)) }
    #[allow(clippy::mut_from_ref)]
    pub fn g(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const MAX_TRAIL: usize = 8192;

/// Layout of the shared memory file read by the driver after a crash or hang.
#[repr(C)]
pub struct Shared {
    pub magic: u64,
    pub execs: u64,
    pub group: u32,
    pub len: u32,
    pub ticks: u64,
    pub trail: [(u16, u16); MAX_TRAIL],
}

struct Engine {
    sh: *mut Shared,
    pos: usize,
    replaying: usize,
    faults_left: u32,
    fault_mask: u32,
    verbose: bool,
    capture: Vec<String>,
    print: bool,
    steps: u64,
    obs: u64,
    states: Option<HashSet<u64>>,
    outcomes: Option<HashSet<u64>>,
    group_name: &'static str,
    prop: &'static str,
    lane: String,
    replay_mode: bool,
    digest: bool,
    running: bool,
    prefix_hash: u64,
}

static E: Racy<Option<Engine>> = Racy::new(None);

fn e() -> &'static mut Engine {
    match E.g() {
        Some(e) => e,
        None => {
            eprintln!("ENGINE-ERROR engine used outside run_main");
            std::process::exit(3)
        }
    }
}

pub fn verbose() -> bool { e().verbose }

static OP: Racy<(&'static str, [isize; 8])> = Racy::new(("", [0; 8]));

/// Announces the operation about to be performed. `{}` in the template stand for the numbers. Returns its first word.
pub fn op(t: &'static str, n: &[isize]) -> &'static str {
    let o = OP.g();
    o.0 = t;
    o.1[..n.len()].copy_from_slice(n);
    if e().verbose {
        log_line(crate::off(op_string))
    }
    match t.find(' ') {
        Some(i) => &t[..i],
        None => t,
    }
}

fn op_string() -> String {
    let o = OP.g();
    let mut s = String::new();
    for (i, part) in o.0.split("{}").enumerate() {
        if i > 0 {
            s.push_str(&o.1[i - 1].to_string());
        }
        s.push_str(part);
    }
    s
}

#[cold]
#[inline(never)]
pub fn fail_fmt(a: std::fmt::Arguments<'_>) -> ! {
    let m = crate::off(|| a.to_string());
    violation(&m)
}

#[cold]
#[inline(never)]
pub fn log_fmt(a: std::fmt::Arguments<'_>) {
    let m = crate::off(|| a.to_string());
    log_line(m)
}

pub fn log_line(s: String) {
    crate::off(|| {
        if e().print {
            println!("  {}", s);
        }
        e().capture.push(s)
    })
}

fn engine_error(msg: &str) -> ! {
    crate::off(|| {
        println!("ENGINE-ERROR {} [group {} trail {}]", msg, e().group_name, trail_string());
        std::process::exit(3)
    })
}

/// One nondeterministic decision among `n`.
pub fn choose(n: usize) -> usize {
    let en = e();
    if !en.running {
        engine_error("choice outside an execution")
    }
    if n == 0 {
        engine_error("empty choice")
    }
    if n == 1 {
        return 0
    }
    let sh = unsafe { &mut *en.sh };
    let pos = en.pos;
    if pos >= MAX_TRAIL {
        engine_error("trail too long")
    }
    let c = if pos < sh.len as usize {
        let (c, m) = sh.trail[pos];
        if m as usize != n {
            // replaying a recorded vector by hand: arity is unknown (0)
            if m == 0 && (c as usize) < n {
                sh.trail[pos].1 = n as u16;
                c
            } else {
                engine_error("divergence while replaying a prefix")
            }
        } else {
            c
        }
    } else {
        sh.trail[pos] = (0, n as u16);
        sh.len = pos as u32 + 1;
        0
    };
    en.pos = pos + 1;
    c as usize
}

/// A choice between values.
pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choose(xs.len())] }

pub fn flag() -> bool { choose(2) == 1 }

/// A decision that costs one unit of the group's fault budget when taken.
pub fn fault(kind: u32) -> bool {
    let en = e();
    if en.fault_mask & kind == 0 || en.faults_left == 0 {
        return false
    }
    if choose(2) == 1 {
        e().faults_left -= 1;
        true
    } else {
        false
    }
}

pub fn faults_left() -> u32 { e().faults_left }

/// Enables fault decisions while `f` runs.
pub fn fault_zone<R, F: FnOnce() -> R>(mask: u32, f: F) -> R {
    struct Reset(u32);
    impl Drop for Reset {
        fn drop(&mut self) { e().fault_mask = self.0 }
    }
    let _r = Reset(e().fault_mask);
    e().fault_mask = mask;
    f()
}

/// Kinds of environment faults.
pub const F_ALLOC: u32 = 1;
pub const F_CLONE: u32 = 2;
pub const F_DROP: u32 = 4;
pub const F_CALL: u32 = 8;
/// in `size_hint`, which may be asked any number of times
pub const F_HINT: u32 = 16;

/// A mistake in the harness, never a verdict.
pub fn fatal(msg: &str) -> ! { engine_error(msg) }

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(a << 6).wrapping_add(a >> 2);
    x ^= x >> 31;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 29;
    x
}

/// Records one transition of the implementation.
pub fn step() {
    let en = e();
    en.steps += 1;
    unsafe { (*en.sh).ticks = en.steps };
}

/// Records a canonical state reached.
pub fn state(h: u64) {
    crate::off(|| {
        if let Some(s) = e().states.as_mut() {
            s.insert(h);
        }
    })
}

/// Mixes an observation into the execution's digest.
pub fn obs(x: u64) {
    let en = e();
    en.obs = mix(en.obs, x);
}

pub fn trail_string() -> String {
    let sh = unsafe { &*e().sh };
    let mut s = String::new();
    for i in 0..sh.len as usize {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&sh.trail[i].0.to_string());
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

/// Ends the process with a report. Safe to call anywhere, including in destructors.
pub fn violation(msg: &str) -> ! {
    crate::alloc::disable();
    let en = e();
    let used = en.pos.min(unsafe { (*en.sh).len as usize });
    unsafe { (*en.sh).len = used as u32 };
    println!(
        "MC-VIOLATION {}:{} :: {} :: {} [last operation: {}]",
        en.group_name,
        trail_string(),
        en.lane,
        msg.replace('\n', " "),
        op_string()
    );
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { sys::_exit(1) }
}

pub fn faulted(budget: u32) -> bool { e().faults_left < budget }

pub struct Group {
    pub name: &'static str,
    pub faults: u32,
    pub body: fn(),
}

fn run_once(g: &Group) {
    {
        let en = e();
        en.pos = 0;
        en.faults_left = g.faults;
        en.fault_mask = 0;
        en.obs = 0x1234;
        en.running = true;
    }
    OP.g().0 = "none";
    crate::alloc::reset();
    crate::tok::reset();
    crate::spy::reset();
    crate::stores::reset();
    sys::watch_copies(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(g.body));
    crate::alloc::disable();
    if let Err(p) = r {
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.is::<crate::tok::Injected>() {
            "injected".to_string()
        } else {
            "?".to_string()
        };
        violation(&format!("unexpected panic escaped an operation that must complete: {}", m))
    }
    crate::alloc::end_of_execution();
    crate::tok::end_of_execution();
    crate::spy::end_of_execution();
    let en = e();
    en.running = false;
    if en.pos < unsafe { (*en.sh).len as usize } {
        engine_error("divergence: execution ended before its recorded prefix")
    }
}

fn set_trail(t: &[(u16, u16)]) {
    let sh = unsafe { &mut *e().sh };
    sh.len = t.len() as u32;
    for (i, x) in t.iter().enumerate() {
        sh.trail[i] = *x;
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

/// Entry point of every property binary.
///
/// Arguments: `--shared FILE` `--lane NAME` `[--thorough]` `[--replay GROUP:TRAIL]` `[--digest FILE]` `[--only GROUP]`
pub fn run_main(prop: &'static str, groups: fn(Tier) -> Vec<Group>) {
    let args: Vec<String> = std::env::args().collect();
    let mut shared_path = None;
    let mut lane = "?".to_string();
    let mut tier = Tier::Quick;
    let mut replay = None;
    let mut digest_file: Option<String> = None;
    let mut only: Option<String> = None;
    let mut list = false;
    let mut i = 1;
    while i < args.len() {
        match &args[i][..] {
            "--shared" => {
                shared_path = Some(args[i + 1].clone());
                i += 1
            }
            "--lane" => {
                lane = args[i + 1].clone();
                i += 1
            }
            "--thorough" => tier = Tier::Thorough,
            "--list" => list = true,
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 1
            }
            "--digest" => {
                digest_file = Some(args[i + 1].clone());
                i += 1
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1
            }
            a => {
                eprintln!("ENGINE-ERROR bad argument {}", a);
                std::process::exit(3)
            }
        }
        i += 1;
    }
    if list {
        for g in groups(tier) {
            println!("{}", g.name)
        }
        return
    }
    let size = std::mem::size_of::<Shared>();
    let sh = unsafe {
        if let Some(p) = shared_path {
            let c = std::ffi::CString::new(p).unwrap();
            let fd = sys::open(c.as_ptr(), 0o102, 0o600);
            if fd < 0 || sys::ftruncate(fd, size as i64) != 0 {
                eprintln!("ENGINE-ERROR cannot open the shared file");
                std::process::exit(3)
            }
            sys::mmap(std::ptr::null_mut(), size, sys::PROT_RW, sys::MAP_SHARED, fd, 0)
        } else {
            sys::mmap(std::ptr::null_mut(), size, sys::PROT_RW, sys::MAP_PRIVATE_ANON, -1, 0)
        }
    };
    if sh as isize == -1 {
        eprintln!("ENGINE-ERROR mmap failed");
        std::process::exit(3)
    }
    let sh = sh as *mut Shared;
    unsafe {
        (*sh).magic = 0x6d63_7472_6169_6c31;
        (*sh).len = 0;
        (*sh).execs = 0;
        (*sh).ticks = 0;
    }
    let verbose = replay.is_some();
    *E.g() = Some(Engine {
        sh,
        pos: 0,
        replaying: 0,
        faults_left: 0,
        fault_mask: 0,
        verbose,
        capture: Vec::new(),
        print: verbose,
        steps: 0,
        obs: 0,
        states: Some(HashSet::new()),
        outcomes: Some(HashSet::new()),
        group_name: "",
        prop,
        lane: lane.clone(),
        replay_mode: verbose,
        digest: digest_file.is_some(),
        running: false,
        prefix_hash: 0,
    });
    let _ = (e().replaying, e().digest, e().replay_mode, e().prop, e().prefix_hash);
    crate::alloc::init();
    if verbose {
        std::panic::set_hook(Box::new(|i| crate::off(|| println!("  [panic] {}", i))));
    } else {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let gs = groups(tier);

    if let Some(r) = replay {
        let colon = r.find(':').expect("GROUP:TRAIL");
        let (gname, trail) = (&r[..colon], &r[colon + 1..]);
        let g = gs.iter().find(|g| g.name == gname).unwrap_or_else(|| {
            println!("ENGINE-ERROR no such group {}", gname);
            std::process::exit(3)
        });
        e().group_name = g.name;
        let t: Vec<(u16, u16)> = if trail == "-" {
            vec![]
        } else {
            trail.split(',').map(|x| (x.parse().unwrap(), 0)).collect()
        };
        set_trail(&t);
        run_once(g);
        println!("REPLAY-OK obs={:016x}", e().obs);
        return
    }

    let mut out = String::new();
    let mut samples: Vec<String> = Vec::new();
    let mut total_execs = 0u64;
    let mut digest_out = String::new();
    for (gi, g) in gs.iter().enumerate() {
        if let Some(o) = &only {
            if o != g.name {
                continue
            }
        }
        unsafe { (*sh).group = gi as u32 };
        e().group_name = g.name;
        set_trail(&[]);
        let steps0 = e().steps;
        let mut execs = 0u64;
        let mut max_len = 0usize;
        let mut sampled: Vec<(Vec<(u16, u16)>, u64)> = Vec::new();
        let mut group_digest = 0u64;
        loop {
            run_once(g);
            execs += 1;
            let en = e();
            let s = unsafe { &mut *sh };
            s.execs += 1;
            let len = s.len as usize;
            if len > max_len {
                max_len = len;
            }
            let ob = en.obs;
            group_digest = mix(group_digest, ob);
            en.outcomes.as_mut().unwrap().insert(mix(ob, gi as u64));
            if digest_file.is_some() && only.is_some() {
                digest_out.push_str(&format!("{} {:016x}\n", trail_string(), ob));
            }
            if execs.is_power_of_two() {
                sampled.push((s.trail[..len].to_vec(), ob));
            }
            // next vector
            let mut l = len;
            while l > 0 && s.trail[l - 1].0 + 1 >= s.trail[l - 1].1 {
                l -= 1;
            }
            if l == 0 {
                break
            }
            s.trail[l - 1].0 += 1;
            s.len = l as u32;
        }
        total_execs += execs;
        let steps = e().steps - steps0;
        // Replay the last few sampled executions twice: identical observations, or the harness is not deterministic.
        let keep = sampled.len().saturating_sub(2);
        let states_before = e().states.take();
        let steps_before = e().steps;
        for (t, ob) in sampled.drain(keep..) {
            for round in 0..2 {
                set_trail(&t);
                e().capture.clear();
                e().verbose = true;
                run_once(g);
                e().verbose = false;
                if e().obs != ob {
                    engine_error("replay of a recorded execution gave different observations")
                }
                if round == 1 {
                    let tr = trail_string();
                    let cap = e().capture.join("; ");
                    samples.push(format!("{}:{} => {}", g.name, tr, cap));
                }
            }
        }
        e().steps = steps_before;
        e().states = states_before;
        if !out.is_empty() {
            out.push(',');
        }
        out.push_str(&format!(
            "{{\"group\":\"{}\",\"executions\":{},\"transitions\":{},\"max_choices\":{},\"digest\":\"{:016x}\"}}",
            g.name, execs, steps, max_len, group_digest
        ));
    }
    if let Some(f) = digest_file {
        if only.is_some() {
            std::fs::write(f, digest_out).unwrap();
        }
    }
    let sj: Vec<String> = samples
        .iter()
        .map(|s| {
            let mut s = esc(s);
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                while s.ends_with('\\') {
                    s.pop();
                }
            }
            format!("\"{}\"", s)
        })
        .collect();
    println!(
        "MC-STATS {{\"lane\":\"{}\",\"executions\":{},\"transitions\":{},\"states\":{},\"outcomes\":{},\"groups\":[{}],\"samples\":[{}]}}",
        lane,
        total_execs,
        e().steps,
        e().states.as_ref().unwrap().len(),
        e().outcomes.as_ref().unwrap().len(),
        out,
        sj.join(",")
    );
}

//! Runs stages of cases on several threads, isolates the code under test, and reports.

use crate::rng::{hash_bytes, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub stage: String,
    pub idx: u64,
    pub detail: String,
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub slots: String,
    pub replay: Option<(String, u64)>,
    pub threads: usize,
    pub deadline: Duration,
    pub scale: f64,
}

static OPTS: OnceLock<Opts> = OnceLock::new();
pub fn opts() -> &'static Opts {
    OPTS.get().expect("opts")
}

pub fn parse_args() -> &'static Opts {
    let mut o = Opts {
        prop: String::new(),
        seed: 1,
        thorough: false,
        out: String::new(),
        slots: String::new(),
        replay: None,
        threads: 8,
        deadline: Duration::from_secs(300),
        scale: 1.0,
    };
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut i = 0;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--prop" => o.prop = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--tier" => o.thorough = v == "thorough",
            "--out" => o.out = v,
            "--slots" => o.slots = v,
            "--threads" => o.threads = v.parse().unwrap(),
            "--deadline" => o.deadline = Duration::from_secs(v.parse().unwrap()),
            "--scale" => o.scale = v.parse().unwrap(),
            "--replay" => {
                let (s, n) = v.rsplit_once('/').unwrap();
                o.replay = Some((s.to_string(), n.parse().unwrap()));
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(3);
            }
        }
        i += 2;
    }
    if OPTS.set(o).is_err() {
        panic!("twice");
    }
    let _ = std::panic::take_hook();
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_TARGET.with(|x| x.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
        } else {
            eprintln!("HARNESS PANIC: {} at {}", msg, loc);
        }
    }));
    slots_init();
    opts()
}

thread_local! {
    static IN_TARGET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

// ---------------------------------------------------------------------------------------------
// Slots: a shared file that says, for every thread, which case it is in and whether control is in
// the code under test, so the driver can attribute a crash of the process.

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Slot {
    in_target: AtomicU64,
    idx: AtomicU64,
    seq: AtomicU64,
    clock: AtomicU64,
    stage: [AtomicU64; 4],
    note: [AtomicU64; 8],
}

const NSLOTS: usize = 64;
static SLOTS: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn slots() -> Option<&'static [Slot]> {
    let p = SLOTS.load(Ordering::Relaxed);
    if p == 0 {
        None
    } else {
        Some(unsafe { std::slice::from_raw_parts(p as *const Slot, NSLOTS) })
    }
}

fn slots_init() {
    use std::os::fd::AsRawFd;
    let o = opts();
    if o.slots.is_empty() {
        return;
    }
    let len = NSLOTS * std::mem::size_of::<Slot>();
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(&o.slots)
        .unwrap();
    f.set_len(len as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    SLOTS.store(p as usize, Ordering::SeqCst);
    // Watchdog: a thread that burns a minute of CPU inside one call to the code under test is
    // stuck. CPU time, not wall-clock time, so a loaded machine cannot cause a verdict.
    let limit: i64 = if o.thorough { 200 } else { 60 };
    std::thread::spawn(move || {
        let mut last: Vec<(u64, i64)> = vec![(0, 0); NSLOTS];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in slots().unwrap().iter().enumerate() {
                if s.in_target.load(Ordering::Relaxed) == 0 {
                    continue;
                }
                let seq = s.seq.load(Ordering::Relaxed);
                let mut ts = [0i64; 2];
                let rc = unsafe { clock_gettime(s.clock.load(Ordering::Relaxed) as i32, &mut ts) };
                if rc != 0 {
                    continue;
                }
                if last[i].0 != seq {
                    last[i] = (seq, ts[0]);
                } else if ts[0] - last[i].1 > limit {
                    s.in_target.store(2, Ordering::SeqCst);
                    unsafe { _exit(77) };
                }
            }
        }
    });
}

fn my_slot() -> Option<&'static Slot> {
    let all = slots()?;
    if SLOT.with(|s| s.get()) == usize::MAX - 1 {
        return None;
    }
    let i = SLOT.with(|s| {
        if s.get() == usize::MAX {
            let n = NEXT.fetch_add(1, Ordering::SeqCst);
            s.set(n % NSLOTS);
            let mut c = 0i32;
            unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
            all[n % NSLOTS].clock.store(c as u32 as u64, Ordering::SeqCst);
        }
        s.get()
    });
    Some(&all[i])
}

fn slot_case(stage: &str, idx: u64) {
    if let Some(s) = my_slot() {
        let mut b = [0u8; 32];
        let n = stage.len().min(31);
        b[..n].copy_from_slice(&stage.as_bytes()[..n]);
        for (i, c) in b.chunks_exact(8).enumerate() {
            s.stage[i].store(u64::from_le_bytes(c.try_into().unwrap()), Ordering::Relaxed);
        }
        s.idx.store(idx, Ordering::Relaxed);
    }
}

/// Free this thread's slot (for short-lived threads).
pub fn slot_note(t: &str) {
    if let Some(s) = my_slot() {
        let mut b = [0u8; 64];
        let n = t.len().min(63);
        b[..n].copy_from_slice(&t.as_bytes()[..n]);
        for (i, c) in b.chunks_exact(8).enumerate() {
            s.note[i].store(u64::from_le_bytes(c.try_into().unwrap()), Ordering::Relaxed);
        }
    }
}

/// Run f on a fresh thread with the given stack size, on behalf of the current case.
pub fn on_thread<T: Send>(stack: usize, f: impl FnOnce() -> T + Send) -> T {
    let _ = my_slot();
    let slot = SLOT.with(|s| s.get());
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                SLOT.with(|x| x.set(slot));
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

/// For helper threads that run beside others: leave the slots alone.
pub fn no_slot() {
    SLOT.with(|x| x.set(usize::MAX - 1));
}

/// Call into the code under test. `Err` holds the panic message.
pub fn target<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let s = my_slot();
    if let Some(s) = s {
        s.seq.fetch_add(1, Ordering::Relaxed);
        s.in_target.store(1, Ordering::Relaxed);
    }
    IN_TARGET.with(|x| x.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_TARGET.with(|x| x.set(false));
    if let Some(s) = s {
        s.in_target.store(0, Ordering::Relaxed);
    }
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

// ---------------------------------------------------------------------------------------------

pub struct Ctx {
    pub r: Rng,
    pub stage: String,
    pub idx: u64,
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    evals: u64,
    digest: u64,
}

pub const MAX_VIOLS: usize = 40;

impl Ctx {
    pub fn count(&mut self, name: &str) {
        self.add(name, 1)
    }
    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(name) {
            *c += n;
        } else {
            self.counts.insert(name.to_string(), n);
        }
    }
    /// Record a distinct, non-trivial case.
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 1_500_000 {
            self.distinct.insert(h);
        }
    }
    pub fn seen_bytes(&mut self, b: &[u8]) {
        self.seen(hash_bytes(b))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// Add an output of the code under test to the order-independent digest of the run.
    pub fn digest(&mut self, b: &[u8]) {
        let h = crate::rng::mix(hash_bytes(b) ^ self.idx.wrapping_mul(0x9E37_79B9_97F4_A7C1));
        self.digest = self.digest.wrapping_add(h);
    }
    pub fn failed(&self) -> bool {
        !self.viols.is_empty()
    }
    pub fn fail(&mut self, sig: &str, detail: String) {
        if self.viols.len() < MAX_VIOLS {
            self.viols.push(Viol {
                sig: sig.to_string(),
                stage: self.stage.clone(),
                idx: self.idx,
                detail,
            });
        }
    }
}

#[derive(Default)]
struct Total {
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    evals: u64,
    digest: u64,
    stages: Vec<(String, u64, u64)>,
    stop: bool,
}

pub struct Runner {
    total: Mutex<Total>,
    start: Instant,
}

impl Runner {
    pub fn new() -> Runner {
        Runner {
            total: Mutex::new(Total::default()),
            start: Instant::now(),
        }
    }

    /// `quick` cases at the quick tier, `thorough` at the thorough tier.
    pub fn stage<F: Fn(&mut Ctx) + Sync>(&self, name: &str, quick: u64, thorough: u64, f: F) {
        let o = opts();
        let n = if o.thorough { thorough } else { quick };
        self.stage_n(name, ((n as f64 * o.scale) as u64).max(1), f)
    }

    /// A fixed number of cases (an enumeration).
    pub fn stage_n<F: Fn(&mut Ctx) + Sync>(&self, name: &str, n: u64, f: F) {
        let o = opts();
        if let Some((s, idx)) = &o.replay {
            if s == name {
                let mut c = self.ctx(name);
                self.one(&mut c, *idx, &f);
                println!("replayed {}/{}: {} violation(s)", name, idx, c.viols.len());
                for v in &c.viols {
                    println!("  {}: {}", v.sig, v.detail);
                }
                self.merge(c);
            }
            return;
        }
        if self.total.lock().unwrap().stop {
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let chunk = (n / (o.threads as u64 * 8)).clamp(1, 256);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for _ in 0..o.threads {
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, || {
                            let mut c = self.ctx(name);
                            'all: loop {
                                let a = next.fetch_add(chunk, Ordering::SeqCst);
                                if a >= n {
                                    break;
                                }
                                for idx in a..(a + chunk).min(n) {
                                    self.one(&mut c, idx, &f);
                                    let did = done.fetch_add(1, Ordering::Relaxed) + 1;
                                    // Late stages get a small share even past the deadline.
                                    if c.viols.len() >= MAX_VIOLS
                                        || self.start.elapsed() > o.deadline && did * 20 >= n
                                    {
                                        break 'all;
                                    }
                                }
                            }
                            c
                        })
                        .unwrap(),
                );
            }
            for h in hs {
                match h.join() {
                    Ok(c) => self.merge(c),
                    Err(_) => {
                        eprintln!("harness thread failed in stage {}", name);
                        std::process::exit(3);
                    }
                }
            }
        });
        // Threads end with the stage; let the next stage reuse the slots.
        NEXT.store(0, Ordering::SeqCst);
        let mut t = self.total.lock().unwrap();
        t.stages
            .push((name.to_string(), done.load(Ordering::SeqCst), n));
        if t.viols.len() >= 200 {
            t.stop = true;
        }
    }

    fn ctx(&self, name: &str) -> Ctx {
        Ctx {
            r: Rng::new(0, "", 0),
            stage: name.to_string(),
            idx: 0,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            viols: vec![],
            evals: 0,
            digest: 0,
        }
    }

    fn one<F: Fn(&mut Ctx)>(&self, c: &mut Ctx, idx: u64, f: &F) {
        let o = opts();
        c.idx = idx;
        c.r = Rng::new(o.seed, &c.stage, idx);
        slot_case(&c.stage, idx);
        f(c);
    }

    fn merge(&self, c: Ctx) {
        let mut t = self.total.lock().unwrap();
        for (k, v) in c.counts {
            *t.counts.entry(k).or_default() += v;
        }
        let mut h = c.distinct.into_iter();
        while t.distinct.len() < 8_000_000 {
            match h.next() {
                Some(x) => {
                    t.distinct.insert(x);
                }
                None => break,
            }
        }
        if t.samples.len() < 30 {
            let st = c.stage.clone();
            let have = t.samples.iter().filter(|s| s.starts_with(&st)).count();
            if have < 3 {
                t.samples
                    .extend(c.samples.into_iter().take(3 - have).map(|s| format!("{}: {}", st, s)));
            }
        }
        t.viols.extend(c.viols);
        t.evals += c.evals;
        t.digest = t.digest.wrapping_add(c.digest);
    }

    /// Write the report; the process exit code is 0 whether or not there are violations.
    pub fn finish(&self) {
        let mut t = self.total.lock().unwrap();
        // Deterministic order: threads finish in any order.
        t.viols
            .sort_by(|a, b| (&a.stage, a.idx, &a.sig).cmp(&(&b.stage, b.idx, &b.sig)));
        let mut s = String::from("{\n");
        s += &format!(" \"evaluations\": {},\n", t.evals);
        s += &format!(" \"distinct\": {},\n", t.distinct.len());
        s += &format!(" \"digest\": \"{:016x}\",\n", t.digest);
        s += " \"stages\": [";
        s += &t
            .stages
            .iter()
            .map(|(n, d, m)| format!("{{\"name\": {}, \"done\": {}, \"planned\": {}}}", js(n), d, m))
            .collect::<Vec<_>>()
            .join(", ");
        s += "],\n \"counts\": {";
        s += &t
            .counts
            .iter()
            .map(|(k, v)| format!("{}: {}", js(k), v))
            .collect::<Vec<_>>()
            .join(", ");
        s += "},\n \"samples\": [";
        s += &t.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
        s += "],\n \"violations\": [";
        s += &t
            .viols
            .iter()
            .map(|v| {
                format!(
                    "{{\"sig\": {}, \"stage\": {}, \"idx\": {}, \"detail\": {}}}",
                    js(&v.sig),
                    js(&v.stage),
                    v.idx,
                    js(&v.detail)
                )
            })
            .collect::<Vec<_>>()
            .join(", ");
        s += "]\n}\n";
        let o = opts();
        if o.out.is_empty() {
            println!("{}", s);
        } else {
            std::fs::write(&o.out, s).unwrap();
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Cut a message to a sane length.
pub fn cut(s: String) -> String {
    if s.len() > 1500 {
        let t: String = s.chars().take(1500).collect();
        t + ".."
    } else {
        s
    }
}

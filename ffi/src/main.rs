//! C21: calls the differential fuzzer's shared library the way a foreign caller does.
//!
//! Every input lies in memory that is read-only during the call, either right before an
//! inaccessible page or right after one, at varying alignment; after the call its memory becomes
//! inaccessible. A stray access or an unwinding call ends the process inside the slot of the case,
//! which the driver reports.
use oasis_cbor::Value;
use std::cell::{Cell, RefCell};
use std::ffi::CString;
use std::sync::OnceLock;
use vharness::gen::{self, FAULTS};
use vharness::model::*;
use vharness::rng::Rng;
use vharness::run::*;

type Fun = unsafe extern "C-unwind" fn(*const u8, usize) -> usize;

extern "C" {
    fn dlopen(p: *const i8, flags: i32) -> *mut u8;
    fn dlsym(h: *mut u8, name: *const i8) -> *mut u8;
    fn dlerror() -> *const i8;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
}

static FUN: OnceLock<Fun> = OnceLock::new();

fn load() {
    let path = std::env::var("VFFILIB").expect("VFFILIB");
    unsafe {
        let name = CString::new(path.clone()).unwrap();
        let h = dlopen(name.as_ptr(), 2);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(dlerror());
            eprintln!("cannot load {}: {:?}", path, e);
            std::process::exit(3);
        }
        let f = dlsym(h, b"cbor_from_slice\0".as_ptr() as *const i8);
        if f.is_null() {
            eprintln!("no cbor_from_slice in {}", path);
            std::process::exit(3);
        }
        FUN.set(std::mem::transmute(f)).ok();
    }
}

/// Counts what the calling thread allocates and frees, in this program and all it loads.
#[cfg(feature = "count")]
mod count {
    use std::cell::Cell;
    thread_local! {
        pub static ON: Cell<bool> = const { Cell::new(false) };
        pub static LIVE: Cell<i64> = const { Cell::new(0) };
        pub static CALLS: Cell<u64> = const { Cell::new(0) };
    }
    extern "C" {
        fn __libc_malloc(n: usize) -> *mut u8;
        fn __libc_calloc(n: usize, m: usize) -> *mut u8;
        fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
        fn __libc_free(p: *mut u8);
        fn malloc_usable_size(p: *mut u8) -> usize;
    }
    unsafe fn note(p: *mut u8, sign: i64) {
        if !p.is_null() {
            let _ = ON.try_with(|on| {
                if on.get() {
                    let n = malloc_usable_size(p) as i64;
                    LIVE.with(|l| l.set(l.get() + sign * n));
                    CALLS.with(|l| l.set(l.get() + 1));
                }
            });
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
        let p = __libc_malloc(n);
        note(p, 1);
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 {
        let p = __libc_calloc(n, m);
        note(p, 1);
        p
    }
    #[no_mangle]
    pub unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
        note(p, -1);
        let q = __libc_realloc(p, n);
        note(if q.is_null() { p } else { q }, 1);
        q
    }
    #[no_mangle]
    pub unsafe extern "C" fn free(p: *mut u8) {
        note(p, -1);
        __libc_free(p)
    }
    pub fn start() {
        LIVE.with(|l| l.set(0));
        ON.with(|l| l.set(true));
    }
    pub fn stop() -> i64 {
        ON.with(|l| l.set(false));
        LIVE.with(|l| l.get())
    }
    /// How many allocations and frees were seen.
    pub fn seen() -> u64 {
        CALLS.with(|l| l.replace(0))
    }
}
#[cfg(not(feature = "count"))]
mod count {
    pub fn start() {}
    pub fn stop() -> i64 {
        0
    }
    pub fn seen() -> u64 {
        0
    }
}

const PAGE: usize = 4096;

/// Memory for one input, between two pages that nobody may touch.
struct Arena {
    base: *mut u8,
    len: usize,
}
impl Arena {
    fn new(len: usize) -> Arena {
        let len = (len.max(1) + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let b = mmap(std::ptr::null_mut(), len + 2 * PAGE, 0, 0x22, -1, 0);
            assert!(b as isize != -1);
            Arena { base: b.add(PAGE), len }
        }
    }
    fn prot(&self, p: i32) {
        assert_eq!(unsafe { mprotect(self.base, self.len, p) }, 0);
    }
}

thread_local! {
    static ARENAS: RefCell<Vec<Arena>> = const { RefCell::new(vec![]) };
    static TURN: Cell<usize> = const { Cell::new(0) };
}

#[derive(Clone, Copy, Debug)]
enum Place {
    /// The input ends where its memory ends.
    End,
    /// The input begins at this offset of its memory.
    Start(usize),
    /// The input is a heap block of exactly its size (for AddressSanitizer).
    Heap,
}

/// One call. Returns what the function returned and what it left allocated.
fn call(b: &[u8], at: Place) -> (Result<usize, String>, i64) {
    if let Place::Heap = at {
        let m: Box<[u8]> = b.into();
        count::start();
        let (p, n) = (m.as_ptr(), m.len());
        let r = target(|| unsafe { (FUN.get().unwrap())(p, n) });
        let left = count::stop();
        let r = if *m != *b { Err("the input changed".into()) } else { r };
        return (r, left);
    }
    ARENAS.with(|a| {
        let mut a = a.borrow_mut();
        if a.is_empty() {
            for _ in 0..4 {
                a.push(Arena::new(64 << 10));
            }
        }
        // Arenas take turns, so a reference kept by the library denotes inaccessible memory.
        let t = TURN.with(|t| {
            t.set((t.get() + 1) % 4);
            t.get()
        });
        if a[t].len < b.len() + PAGE {
            a[t] = Arena::new(b.len() + PAGE);
        }
        let m = &a[t];
        let off = match at {
            Place::End => m.len - b.len(),
            Place::Start(o) => o,
            Place::Heap => unreachable!(),
        };
        m.prot(3);
        unsafe {
            // Zeros, well-formed items, lie where an overlong read begins.
            std::ptr::write_bytes(m.base, 0x00, m.len.min(64));
            std::ptr::copy_nonoverlapping(b.as_ptr(), m.base.add(off), b.len());
        }
        m.prot(1);
        count::start();
        let p = unsafe { m.base.add(off) } as *const u8;
        let r = target(|| unsafe { (FUN.get().unwrap())(p, b.len()) });
        let left = count::stop();
        m.prot(0);
        (r, left)
    })
}

fn check(c: &mut Ctx, b: &[u8]) {
    let model = match parse_lax(b, Some(64)) {
        Ok(_) => 0usize,
        Err(_) => 1,
    };
    let here = match target(|| oasis_cbor::from_slice_non_strict::<Value>(b).is_ok()) {
        Ok(true) => 0usize,
        Ok(false) => 1,
        Err(p) => return c.fail("panic", p),
    };
    c.seen_bytes(b);
    c.count(if model == 0 { "accepted" } else { "refused" });
    let most = *c.r.pick(&[16usize, 70]);
    let off = c.r.below(most);
    for at in [Place::End, Place::Start(0), Place::Start(off), Place::Heap] {
        c.eval();
        c.count(match at {
            Place::End => "placed.at_end",
            Place::Start(0) => "placed.at_start",
            Place::Heap => "placed.heap",
            _ => "placed.inside",
        });
        let (r, left) = call(b, at);
        c.add("allocations_and_frees_seen", count::seen());
        if r != Ok(model) || r != Ok(here) {
            c.fail(
                "verdict",
                cut(format!("{:?} for {} ({} bytes, {:?}); the model says {}, from_slice_non_strict {}", r, hexs(b), b.len(), at, model, here)),
            );
            return;
        }
        if left != 0 {
            // Not an allocation made once (thread-local state, say), but one for every call.
            let again: Vec<i64> = (0..4).map(|_| call(b, at).1).collect();
            c.count("allocation.kept_once");
            if again.iter().all(|x| *x != 0) {
                c.fail("leak", cut(format!("{} bytes stay allocated after each call ({:?}) with {}", left, again, hexs(b))));
                return;
            }
        }
    }
}

fn some_input(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 | 1 => gen::input(r),
        2 => {
            let v = gen::any(r);
            let f = *r.pick(FAULTS);
            gen::with_fault(&v, f, r).unwrap_or_else(|| raw(&v))
        }
        3 => {
            let v = gen::any(r);
            let mut b = vec![];
            gen::enc_lax(&v, r, &mut b);
            b
        }
        4 => {
            // Cut off anywhere.
            let v = gen::any(r);
            let mut b = raw(&v);
            let n = r.below(b.len() + 1);
            b.truncate(n);
            b
        }
        5 => {
            let v = gen::any(r);
            let mut b = raw(&v);
            b.extend(gen::bstr(r, 30));
            b
        }
        _ => {
            let v = gen::any(r);
            let mut b = raw(&v);
            if r.bool() {
                gen::mutate(&mut b, r);
            }
            b
        }
    }
}

fn main() {
    let o = parse_args();
    if o.prop == "inputs" {
        return write_inputs(o);
    }
    load();
    let run = Runner::new();
    run.stage_n("small", 65_536 / 256 + 2, |c| {
        if c.idx >= 256 {
            check(c, &[]);
            if c.idx > 256 {
                for n in 0..=255u8 {
                    check(c, &[n]);
                }
            }
            return;
        }
        for n in 0..256 {
            check(c, &[c.idx as u8, n as u8]);
        }
    });
    run.stage("mixed", 60_000, 2_000_000, |c| {
        let b = some_input(&mut c.r);
        c.sample(|| hexs(&b));
        check(c, &b);
    });
    run.stage("claims", 20_000, 400_000, |c| {
        // Heads that claim more than is there, by little or by much, at the end of the memory.
        let v = gen::any(&mut c.r);
        let mut b = raw(&v);
        if c.r.bool() {
            b = vec![0x82];
            b.extend(raw(&v));
        }
        let major = *c.r.pick(&[2u8, 3, 4, 5, 2, 3]);
        let have = c.r.below(40);
        let n = match c.r.below(4) {
            0 => have as u64 + 1,
            1 => have as u64 + 1 + c.r.below(4096) as u64,
            2 => gen::int(&mut c.r),
            _ => u64::MAX - c.r.below(16) as u64,
        };
        let mut h = vec![];
        let w = min_width(n);
        head_w(&mut h, major, n, w);
        b.extend(h);
        b.extend(vec![0x41u8; have]);
        check(c, &b);
    });
    run.stage("depth", 4_000, 40_000, |c| {
        let h = c.r.range(60, 68);
        let v = gen::chain(&mut c.r, h);
        let mut b = raw(&v);
        if c.r.one_in(4) {
            b.pop();
        }
        check(c, &b);
    });
    run.stage("large", 40, 600, |c| {
        let v = gen::large(&mut c.r);
        let mut b = raw(&v);
        match c.r.below(4) {
            0 => {
                let n = c.r.below(b.len() + 1);
                b.truncate(n);
            }
            1 => gen::mutate(&mut b, &mut c.r),
            _ => {}
        }
        c.add("large.bytes", b.len() as u64);
        check(c, &b);
    });
    run.stage("alike", 6_000, 100_000, |c| {
        // One after another: inputs that differ in what weak sums over bytes do not see.
        let mut a = some_input(&mut c.r);
        a.truncate(200);
        if a.len() < 2 {
            a = vec![0x18, 0x18];
        }
        check(c, &a);
        for _ in 0..6 {
            let b = gen::alike(&a, &mut c.r);
            check(c, &b);
            if c.r.bool() {
                a = b;
            }
        }
    });
    run.finish();
}

/// Inputs for callers in other languages: 1 byte expected verdict, 4 bytes length, the input.
fn write_inputs(o: &Opts) {
    let n = if o.thorough { 400_000 } else { 30_000 };
    let mut out = vec![];
    let mut put = |b: &[u8]| {
        out.push(parse_lax(b, Some(64)).is_err() as u8);
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    };
    put(&[]);
    for a in 0..=255u8 {
        put(&[a]);
    }
    for i in 0..n {
        let mut r = Rng::new(o.seed, "inputs", i);
        put(&some_input(&mut r));
        if i % 500 == 0 {
            put(&raw(&gen::large(&mut r)));
            put(&[]);
        }
    }
    std::fs::write(&o.out, out).unwrap();
}

//! Cases made natively and recorded in a file, and outcomes printed as hashes, one line each, so
//! that runs of the same cases on other platforms, in other orders and beside other threads can be
//! compared line by line.
//!
//! `gen FILE seed percent` makes the cases; `run FILE i n` runs share i of n of them;
//! `threads FILE i n` runs them alone and then on several threads at once; `show FILE k` prints
//! what case k is about and what comes of it.
use oasis_cbor::{SimpleValue, Value};
use std::cell::RefCell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::model::*;
use vharness::rng::{hash_bytes, mix, Rng};

pub type Gen = fn(&mut Rng) -> (u64, Vec<u8>);
pub type Run = fn(u64, &[u8], &mut Out);

pub struct Stage {
    pub name: &'static str,
    pub n: u64,
    pub gen: Gen,
    pub run: Run,
}

/// What comes of a case: a hash that does not depend on the platform, and text if somebody reads it.
pub struct Out {
    h: u64,
    text: Option<String>,
}

impl Hasher for Out {
    fn finish(&self) -> u64 {
        self.h
    }
    fn write(&mut self, b: &[u8]) {
        self.h = mix(self.h ^ hash_bytes(b));
    }
    fn write_u8(&mut self, n: u8) {
        self.write_u64(n as u64)
    }
    fn write_u16(&mut self, n: u16) {
        self.write_u64(n as u64)
    }
    fn write_u32(&mut self, n: u32) {
        self.write_u64(n as u64)
    }
    fn write_u64(&mut self, n: u64) {
        self.h = mix(self.h ^ n);
    }
    fn write_u128(&mut self, n: u128) {
        self.write_u64(n as u64);
        self.write_u64((n >> 64) as u64);
    }
    fn write_usize(&mut self, n: usize) {
        self.write_u64(n as u64)
    }
    fn write_i8(&mut self, n: i8) {
        self.write_u64(n as i64 as u64)
    }
    fn write_i16(&mut self, n: i16) {
        self.write_u64(n as i64 as u64)
    }
    fn write_i32(&mut self, n: i32) {
        self.write_u64(n as i64 as u64)
    }
    fn write_i64(&mut self, n: i64) {
        self.write_u64(n as u64)
    }
    fn write_i128(&mut self, n: i128) {
        self.write_u128(n as u128)
    }
    fn write_isize(&mut self, n: isize) {
        self.write_u64(n as i64 as u64)
    }
}

impl Out {
    fn say(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.text {
            *t += &f();
            t.push('\n');
        }
    }
    pub fn put<T: Hash + Debug>(&mut self, x: T) {
        x.hash(self);
        self.say(|| format!("{:?}", x));
    }
    pub fn dbg<T: Debug>(&mut self, x: T) {
        self.put(format!("{:?}", x));
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.write(b);
        self.say(|| hex(b));
    }
    /// A dynamic value as it is held.
    pub fn val(&mut self, v: &Value) {
        self.walk(v);
        self.say(|| format!("{:?}", v));
    }
    fn walk(&mut self, v: &Value) {
        match v {
            Value::Unsigned(n) => {
                self.write_u8(0);
                self.write_u64(*n);
            }
            Value::Negative(n) => {
                self.write_u8(1);
                self.write_i128(*n);
            }
            Value::ByteString(b) => {
                self.write_u8(2);
                self.write(b);
            }
            Value::TextString(s) => {
                self.write_u8(3);
                self.write(s.as_bytes());
            }
            Value::Array(a) => {
                self.write_u8(4);
                self.write_usize(a.len());
                for x in a {
                    self.walk(x);
                }
            }
            Value::Map(m) => {
                self.write_u8(5);
                self.write_usize(m.len());
                for (k, x) in m {
                    self.walk(k);
                    self.walk(x);
                }
            }
            Value::Tag(t, x) => {
                self.write_u8(6);
                self.write_u64(*t);
                self.walk(x);
            }
            Value::Simple(s) => self.write_u8(match s {
                SimpleValue::FalseValue => 20,
                SimpleValue::TrueValue => 21,
                SimpleValue::NullValue => 22,
                SimpleValue::Undefined => 23,
            }),
        }
    }
    /// Run the code under test; a panic is an outcome.
    pub fn calm<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Some(x),
            Err(_) => {
                self.write_u64(0xdead);
                self.say(|| format!("PANIC {}", PANIC.with(|p| p.borrow().clone())));
                None
            }
        }
    }
    pub fn res<T, E: Debug>(&mut self, r: Option<Result<T, E>>, ok: impl FnOnce(&mut Out, T)) {
        match r {
            Some(Ok(x)) => ok(self, x),
            Some(Err(e)) => self.dbg(e),
            None => {}
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Job<'a> {
    stage: &'a Stage,
    k: u64,
    aux: u64,
    bytes: Vec<u8>,
}

/// The cases first, first + step, ... Every case has memory of its own, because Miri's work on one
/// allocation grows with the number of references ever made into it.
fn load<'a>(path: &str, stages: &'a [Stage], first: u64, step: u64) -> Vec<Job<'a>> {
    use std::io::{Read, Seek, SeekFrom};
    let mut f = std::fs::File::open(path).unwrap();
    let (mut v, mut k) = (vec![], 0);
    loop {
        let mut h = [0u8; 13];
        if f.read_exact(&mut h).is_err() {
            return v;
        }
        let n = u32::from_le_bytes([h[9], h[10], h[11], h[12]]);
        if k >= first && (k - first) % step == 0 {
            let mut bytes = vec![0; n as usize];
            f.read_exact(&mut bytes).unwrap();
            let aux = u64::from_le_bytes([h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]]);
            v.push(Job { stage: &stages[h[0] as usize], k, aux, bytes });
        } else {
            f.seek(SeekFrom::Current(n as i64)).unwrap();
        }
        k += 1;
    }
}

fn run(j: &Job) -> u64 {
    let mut o = Out { h: 0, text: None };
    (j.stage.run)(j.aux, &j.bytes, &mut o);
    o.h
}

pub fn main(stages: &[Stage]) {
    let _ = std::panic::take_hook();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    if a[0] == "gen" {
        // Stages are interleaved, so that any share and any prefix has some of each.
        let mut out = vec![];
        let counts: Vec<u64> = stages.iter().map(|s| (s.n * n(3) / 100).max(1)).collect();
        let most = *counts.iter().max().unwrap();
        for k in 0..most {
            for (i, s) in stages.iter().enumerate() {
                let idx = k * counts[i] / most;
                if k > 0 && idx == (k - 1) * counts[i] / most {
                    continue;
                }
                let (aux, b) = (s.gen)(&mut Rng::new(n(2), s.name, idx));
                out.push(i as u8);
                out.extend(aux.to_le_bytes());
                out.extend((b.len() as u32).to_le_bytes());
                out.extend(b);
            }
        }
        std::fs::write(&a[1], out).unwrap();
        return;
    }
    let jobs = if a[0] == "show" { load(&a[1], stages, n(2), u64::MAX) } else { load(&a[1], stages, n(2), n(3)) };
    match a[0].as_str() {
        "show" => {
            let j = &jobs[0];
            let mut o = Out { h: 0, text: Some(String::new()) };
            (j.stage.run)(j.aux, &j.bytes, &mut o);
            println!("{} {:x} {}", j.stage.name, j.aux, hex(&j.bytes));
            println!("{}", o.text.unwrap());
        }
        "run" => {
            for j in &jobs {
                println!("{} {} {:016x}", j.k, j.stage.name, run(j));
            }
            println!("END");
        }
        "threads" => {
            let mine: Vec<&Job> = jobs.iter().collect();
            let alone: Vec<u64> = mine.iter().map(|j| run(j)).collect();
            let threads = 3usize;
            let mine = &mine;
            let runs: Vec<Vec<(usize, u64)>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        sc.spawn(move || {
                            (0..mine.len()).map(|k| (k + t * (mine.len() / 7)) % mine.len()).map(|k| (k, run(mine[k]))).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut bad = 0;
            for (k, h) in runs.iter().flatten() {
                if alone[*k] != *h {
                    bad += 1;
                    println!("DIFFERS {} {}", mine[*k].k, mine[*k].stage.name);
                }
            }
            println!("{} {}", mine.len() * (threads + 1), bad);
            println!("END");
        }
        x => panic!("{}", x),
    }
}

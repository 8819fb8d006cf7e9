//! The value layer.
extern crate alloc;

use oasis_cbor as cbor;
use oasis_cbor::reader::{read_nested, read_nested_non_strict};
use oasis_cbor::writer::write_nested;
use oasis_cbor_value::*;
use vharness::gen::{self, FAULTS};
use vharness::model::*;
use vharness::rng::Rng;
use vmiri::*;

const LIMITS: &[Option<i8>] = &[Some(64), Some(127), None, Some(2), Some(0), Some(64)];

fn read_all(limit: u64, b: &[u8], o: &mut Out) {
    let limit = LIMITS[(limit % LIMITS.len() as u64) as usize];
    let x = o.calm(|| read_nested(b, limit));
    o.res(x, |o, v| o.val(&v));
    let x = o.calm(|| read_nested_non_strict(b, limit));
    o.res(x, |o, v| o.val(&v));
    let x = o.calm(|| cbor::from_slice_non_strict::<Value>(b).map_err(|e| e.to_string()));
    o.res(x, |o, v| o.val(&v));
}

fn small(r: &mut Rng) -> RV {
    let mut budget = *r.pick(&[1isize, 3, 6, 12, 20]);
    gen::value(r, 4, &mut budget)
}

fn gen_read(r: &mut Rng) -> (u64, Vec<u8>) {
    let b = match r.below(6) {
        0 => gen::input(r),
        1 | 2 => {
            let v = small(r);
            let f = *r.pick(FAULTS);
            gen::with_fault(&v, f, r).unwrap_or_else(|| raw(&v))
        }
        3 => {
            let v = small(r);
            let mut b = vec![];
            gen::enc_lax(&v, r, &mut b);
            b
        }
        4 => {
            let mut b = raw(&small(r));
            gen::mutate(&mut b, r);
            b
        }
        _ => raw(&canon(&small(r)).unwrap_or(U(1))),
    };
    (r.below(LIMITS.len()) as u64, if b.len() > 600 { vec![0x61, 0xff] } else { b })
}

/// Lengths around and beyond what fits a word.
fn gen_claims(r: &mut Rng) -> (u64, Vec<u8>) {
    let mut b = match r.below(3) {
        0 => vec![],
        1 => vec![0x82, 0x01],
        _ => vec![0xa1, 0x00],
    };
    let major = r.range(0, 7) as u8;
    let have = r.below(12) as u64;
    let n = match r.below(6) {
        0 => (1u64 << 32) + have,
        1 => (1u64 << 32) + have + 1,
        2 => ((r.u64() & 7) << 32) | have,
        3 => (1u64 << 31) - 1 + r.below(3) as u64,
        4 => u64::MAX - r.below(10) as u64,
        _ => gen::int(r),
    };
    let w = *r.pick(&[min_width(n), 8]);
    head_w(&mut b, major, n, w);
    b.extend((0..have).map(|i| if r.bool() { 0x41 } else { i as u8 }));
    (0, b)
}

/// Values as they are held: any order, sometimes with a repeated key.
fn gen_write(r: &mut Rng) -> (u64, Vec<u8>) {
    let mut v = small(r);
    if r.one_in(6) {
        if let M(m) = &mut v {
            if !m.is_empty() {
                let e = m[r.below(m.len())].clone();
                m.push(e);
            }
        }
    }
    (r.below(LIMITS.len()) as u64, raw(&v))
}

fn write(limit: u64, b: &[u8], o: &mut Out) {
    let limit = LIMITS[(limit % LIMITS.len() as u64) as usize];
    let v = match read_nested_non_strict(b, None) {
        Ok(v) => v,
        Err(e) => return o.dbg(e),
    };
    let (v1, v2) = (v.clone(), v.clone());
    let mut buf = vec![0xaa, 0xbb];
    let x = o.calm(|| write_nested(v1, &mut buf, limit));
    let fine = matches!(x, Some(Ok(())));
    o.res(x, |_, _| ());
    if fine {
        o.bytes(&buf);
        let x = o.calm(|| read_nested(&buf[2..], limit));
        o.res(x, |o, v| o.val(&v));
        if limit == Some(127) {
            if let Some(b) = o.calm(|| cbor::to_vec(v2)) {
                o.bytes(&b);
            }
        }
    }
}

fn gen_compare(r: &mut Rng) -> (u64, Vec<u8>) {
    let mut b = vec![0x84];
    let mut last = U(0);
    for _ in 0..4 {
        let mut v = canon(&small(r)).unwrap_or(U(3));
        if r.one_in(3) {
            v = last.clone();
            if r.bool() {
                v = A(vec![v, U(r.below(2) as u64)]);
            }
        }
        b.extend(raw(&v));
        last = v;
    }
    (0, b)
}

fn compare(_: u64, b: &[u8], o: &mut Out) {
    let mut vs = match read_nested_non_strict(b, None) {
        Ok(Value::Array(a)) => a,
        x => return o.dbg(x),
    };
    for a in &vs {
        for b in &vs {
            let x = o.calm(|| (a.cmp(b), a == b, a.partial_cmp(b)));
            o.put(x);
        }
    }
    if let Some(s) = o.calm(move || {
        vs.sort();
        vs
    }) {
        o.val(&Value::Array(s));
    }
}

fn gen_ints(r: &mut Rng) -> (u64, Vec<u8>) {
    let n = gen::int(r);
    let mut b = vec![];
    head(&mut b, if r.bool() { 0 } else { 1 }, n);
    (n, b)
}

fn ints(n: u64, b: &[u8], o: &mut Out) {
    macro_rules! all {
        ($($t:ty),*) => {
            $(let x = o.calm(|| cbor::from_slice::<$t>(b).map_err(|e| e.to_string()));
            o.put(x);)*
        };
    }
    all!(u8, u16, u32, u64, u128, i8, i16, i32, i64, bool, String, Option<u32>, Vec<u8>);
    macro_rules! enc {
        ($($e:expr),*) => {
            $(if let Some(b) = o.calm(|| cbor::to_vec($e)) {
                o.bytes(&b);
            })*
        };
    }
    enc!(n, n as i64, n as u32, n as i32, n as i8, (n as u128) << (n % 60), Value::integer(n as i64));
}

/// Sizes at the width boundaries.
fn gen_sizes(r: &mut Rng) -> (u64, Vec<u8>) {
    let n = *r.pick(&[23usize, 24, 25, 254, 255, 256, 257, 300]);
    let v = match r.below(5) {
        0 => B(gen::bytes(r, n)),
        1 => T(gen::text_n(r, n)),
        2 => A((0..n).map(|i| U(i as u64)).collect()),
        3 => M((0..n).map(|i| (U(i as u64), S(20))).collect()),
        _ => B(gen::bytes(r, [65535usize, 65536, 65537][n % 3])),
    };
    (1, raw(&v))
}

fn gen_deep(r: &mut Rng) -> (u64, Vec<u8>) {
    let h = r.range(60, 68);
    (0, raw(&gen::chain(r, h)))
}

fn gen_macros(r: &mut Rng) -> (u64, Vec<u8>) {
    (gen::int(r), gen::text(r, 9).into_bytes())
}

fn macros(b: u64, k: &[u8], o: &mut Out) {
    let k = String::from_utf8_lossy(k).into_owned();
    let a = b.rotate_left(7) as i64;
    let v = o.calm(|| {
        cbor_map! {
            a => cbor_array![b, k.as_str(), cbor_null!()],
            k.as_str() => cbor_tagged!(b, cbor_bytes!(k.as_bytes().to_vec())),
            "zz" => cbor_bool!(b & 1 == 1),
        }
    });
    if let Some(v) = v {
        o.val(&v);
        let mut buf = vec![];
        let x = o.calm(|| write_nested(v, &mut buf, None));
        o.dbg(x);
        o.bytes(&buf);
    }
    let x = o.calm(|| {
        let m = vec![
            (Value::integer(1), Value::integer(a)),
            (Value::integer(2), Value::from(k.clone())),
            (Value::from("x".to_string()), Value::from(b & 1 == 1)),
        ];
        destructure_cbor_map! {
            let {
                1 => one,
                3 => three,
                "x" => x,
            } = m;
        }
        format!("{:?} {:?} {:?}", one, three, x)
    });
    o.put(x);
}

fn main() {
    let s = |name, n, gen, run| Stage { name, n, gen, run };
    vmiri::main(&[
        s("read", 900, gen_read, read_all),
        s("claims", 500, gen_claims, read_all),
        s("write", 500, gen_write, write),
        s("compare", 200, gen_compare, compare),
        s("ints", 250, gen_ints, ints),
        s("sizes", 20, gen_sizes, write),
        s("deep", 30, gen_deep, read_all),
        s("macros", 60, gen_macros, macros),
    ])
}

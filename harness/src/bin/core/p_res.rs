//! C07: what decoding may use, as a function of the input's length.
use super::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU32, Ordering as AtOrd};

/// Peak live memory: the unchanged code needs about 200 bytes per input byte at worst (a chain of
/// one-entry maps, each in a vector with room for four).
fn peak_bound(len: usize) -> u64 {
    1024 * (len as u64 + 128)
}
/// Everything ever allocated during the call, and the number of allocations.
fn total_bound(len: usize) -> u64 {
    3072 * (len as u64 + 256)
}
fn calls_bound(len: usize) -> u64 {
    16 * (len as u64 + 128)
}

type DecFn = fn(&[u8]) -> bool;

#[derive(Default, cbor::Decode, cbor::Encode)]
#[allow(dead_code)]
struct Rec {
    a: u64,
    #[cbor(optional)]
    list: Vec<Rec>,
    #[cbor(optional)]
    m: BTreeMap<String, Vec<u8>>,
}

#[derive(serde::Deserialize)]
#[allow(dead_code)]
struct SRec {
    a: u64,
    list: Vec<SRec>,
}

const DECODERS: &[(&str, DecFn)] = &[
    ("read(64)", |b| read_nested(b, Some(64)).is_ok()),
    ("read(127)", |b| read_nested(b, Some(127)).is_ok()),
    ("read_non_strict(64)", |b| read_nested_non_strict(b, Some(64)).is_ok()),
    ("read_non_strict(127)", |b| read_nested_non_strict(b, Some(127)).is_ok()),
    ("Value", |b| cbor::from_slice::<Value>(b).is_ok()),
    ("Value ns", |b| cbor::from_slice_non_strict::<Value>(b).is_ok()),
    ("Vec<u64>", |b| cbor::from_slice::<Vec<u64>>(b).is_ok()),
    ("Vec<u8>", |b| cbor::from_slice::<Vec<u8>>(b).is_ok()),
    ("Vec<Value>", |b| cbor::from_slice::<Vec<Value>>(b).is_ok()),
    ("Vec<Vec<Vec<u8>>>", |b| cbor::from_slice_non_strict::<Vec<Vec<Vec<u8>>>>(b).is_ok()),
    ("[u64;4]", |b| cbor::from_slice::<[u64; 4]>(b).is_ok()),
    ("[u8;32]", |b| cbor::from_slice::<[u8; 32]>(b).is_ok()),
    ("String", |b| cbor::from_slice::<String>(b).is_ok()),
    ("u128", |b| cbor::from_slice::<u128>(b).is_ok()),
    ("(u64,u64)", |b| cbor::from_slice_non_strict::<(u64, u64)>(b).is_ok()),
    ("BTreeMap", |b| cbor::from_slice::<BTreeMap<u64, Value>>(b).is_ok()),
    ("HashMap", |b| cbor::from_slice_non_strict::<HashMap<u64, Value>>(b).is_ok()),
    ("BTreeSet", |b| cbor::from_slice::<BTreeSet<Value>>(b).is_ok()),
    ("Option<Vec<Option<u8>>>", |b| cbor::from_slice::<Option<Vec<Option<u8>>>>(b).is_ok()),
    ("Rec", |b| cbor::from_slice::<Rec>(b).is_ok()),
    ("Rec ns", |b| cbor::from_slice_non_strict::<Rec>(b).is_ok()),
    ("serde IgnoredAny", |b| cbor::serde::from_slice::<serde::de::IgnoredAny>(b).is_ok()),
    ("serde Vec<u64>", |b| cbor::serde::from_slice::<Vec<u64>>(b).is_ok()),
    ("serde BTreeMap", |b| cbor::serde::from_slice::<BTreeMap<u64, Vec<u64>>>(b).is_ok()),
    ("serde ByteBuf", |b| cbor::serde::from_slice::<serde_bytes::ByteBuf>(b).is_ok()),
    ("serde SRec", |b| cbor::serde::from_slice::<SRec>(b).is_ok()),
    ("serde Vec<String>", |b| cbor::serde::from_slice::<Vec<String>>(b).is_ok()),
    ("HashSet<u64>", |b| cbor::from_slice::<HashSet<u64>>(b).is_ok()),
    ("BTreeMap<String>", |b| cbor::from_slice::<BTreeMap<String, u64>>(b).is_ok()),
    ("Open", |b| cbor::from_slice_non_strict::<Open>(b).is_ok()),
    ("Tagged", |b| cbor::from_slice_non_strict::<Tagged>(b).is_ok()),
    ("Vec<Outer>", |b| cbor::from_slice::<Vec<Outer>>(b).is_ok()),
    ("Pairs", |b| cbor::from_slice::<Pairs>(b).is_ok()),
    ("serde HashMap<String>", |b| cbor::serde::from_slice::<HashMap<String, u64>>(b).is_ok()),
    ("serde Vec<SEnum>", |b| cbor::serde::from_slice::<Vec<SEnum>>(b).is_ok()),
    ("serde HashSet<u64>", |b| cbor::serde::from_slice::<HashSet<u64>>(b).is_ok()),
];

/// Ignores what it does not know.
#[derive(Default, cbor::Decode)]
#[cbor(allow_unknown)]
#[allow(dead_code)]
struct Open {
    k00010: u64,
    zz: u8,
}

#[derive(cbor::Decode)]
#[cbor(tag = "k00011")]
#[allow(dead_code)]
enum Tagged {
    #[cbor(rename = 1, allow_unknown)]
    A { k00010: u64 },
    #[cbor(missing, allow_unknown)]
    B { zz: u64 },
}

#[derive(cbor::Decode, cbor::Encode)]
#[allow(dead_code)]
enum Inner {
    #[cbor(rename = "a")]
    One,
    Two(u64),
}

#[derive(cbor::Decode, cbor::Encode)]
#[allow(dead_code)]
enum Outer {
    Zero,
    #[cbor(embed)]
    In(Inner),
    #[cbor(embed)]
    N(Vec<u64>),
}

/// An array of arrays in a transparent type.
#[derive(Default, cbor::Decode, cbor::Encode)]
#[cbor(transparent)]
#[allow(dead_code)]
struct Pairs(Vec<Pair>);

#[derive(Default, cbor::Decode, cbor::Encode)]
#[allow(dead_code)]
struct Pair(u64, u64);

#[derive(serde::Deserialize, serde::Serialize)]
#[allow(dead_code)]
enum SEnum {
    #[serde(rename = "a")]
    A,
    B(u64),
    C {
        x: u64,
    },
}

fn mem_one(c: &mut Ctx, b: &[u8], d: usize) {
    c.eval();
    let (name, f) = DECODERS[d];
    let r = target(|| measure(|| f(b)));
    match r {
        Ok((ok, u)) => {
            c.count(if ok { "decoded" } else { "refused" });
            let per = u.peak / (b.len() as u64 + 128);
            c.count(match u.total / (b.len() as u64 + 256) {
                0..=63 => "total_per_byte_under_64",
                64..=255 => "total_per_byte_64_to_255",
                256..=511 => "total_per_byte_256_to_511",
                512..=1023 => "total_per_byte_512_to_1023",
                _ => "total_per_byte_over_1023",
            });
            c.count(match u.calls / (b.len() as u64 + 128) {
                0 => "requests_per_byte_under_1",
                1..=3 => "requests_per_byte_1_to_3",
                4..=7 => "requests_per_byte_4_to_7",
                _ => "requests_per_byte_over_7",
            });
            if u.live != 0 {
                c.fail(
                    "memory-leak",
                    cut(format!("{} of {} leaves {} bytes allocated", name, hexs(b), u.live)),
                );
            }
            c.count(match per {
                0..=63 => "peak_per_byte_under_64",
                64..=255 => "peak_per_byte_64_to_255",
                256..=511 => "peak_per_byte_256_to_511",
                _ => "peak_per_byte_over_511",
            });
            if u.peak > peak_bound(b.len()) {
                c.fail(
                    "memory-peak",
                    cut(format!("{} of {} bytes allocates {} bytes at once: {}", name, b.len(), u.peak, hexs(b))),
                );
            }
            if u.total > total_bound(b.len()) || u.calls > calls_bound(b.len()) {
                c.fail(
                    "memory-total",
                    cut(format!("{} of {} bytes allocates {} bytes in {} requests: {}", name, b.len(), u.total, u.calls, hexs(b))),
                );
            }
        }
        Err(p) => c.fail("resource-panic", cut(format!("{} of {} panics: {}", name, hexs(b), p))),
    }
}

/// Heads claiming much content, at every level of nesting, with little behind them.
fn claims(r: &mut Rng) -> Vec<u8> {
    let mut o = vec![];
    let n = *r.pick(&[1usize, 2, 3, 5, 10, 30, 63, 64, 65, 120]);
    for i in 0..n {
        let claim = match r.below(8) {
            0 => u64::MAX >> r.below(8),
            1 => 1u64 << r.below(64),
            2 => 0x7fff_ffff,
            3 => 0xffff_ffff,
            4 => 0x1_0000,
            5 => 0x10_0000,
            6 => 0xff_ffff_ffff,
            _ => gen::int(r),
        };
        match r.below(6) {
            0 | 1 => head(&mut o, 4, claim),
            2 => {
                head(&mut o, 5, claim);
                // Alternate: nest in the key or in the value.
                if r.bool() {
                    head(&mut o, 0, i as u64);
                }
            }
            3 => {
                head(&mut o, 4, claim);
                for _ in 0..r.below(5) {
                    enc_raw(&gen::scalar_small(r), &mut o);
                }
            }
            4 => head(&mut o, 6, claim),
            _ => head(&mut o, 4, claim.max(30)),
        }
    }
    match r.below(4) {
        0 => head(&mut o, 2, gen::int(r) | 0x1000),
        1 => head(&mut o, 3, gen::int(r) | 0x1000),
        2 => {
            head(&mut o, 2, (1 << 31) | gen::int(r));
            let n = r.below(50);
            o.extend(gen::bytes(r, n));
        }
        _ => {}
    }
    // A long tail of small items: it makes the input long, but belongs to the innermost claim.
    if r.below(4) == 0 {
        let n = *r.pick(&[100usize, 1000, 4000]);
        let b = *r.pick(&[0u8, 0x40, 0x60, 0x80, 0xa0, 0xf6]);
        o.extend(vec![b; n]);
    }
    o
}

type EncFn = fn(Value) -> usize;

/// What is encoded, given the value decoded from a dense input.
const ENCODERS: &[(&str, EncFn)] = &[
    ("write", |v| {
        let mut o = vec![];
        let _ = write(v, &mut o);
        o.len()
    }),
    ("write_nested(64) behind a prefix", |v| {
        let mut o = vec![7; 10];
        let _ = write_nested(v, &mut o, Some(64));
        o.len()
    }),
    ("write reversed", |v| {
        let mut o = vec![];
        let _ = write(reversed(v), &mut o);
        o.len()
    }),
    ("write, all maps reversed", |v| {
        let mut o = vec![];
        let _ = write(disordered(v, false), &mut o);
        o.len()
    }),
    ("write, all maps scattered", |v| {
        let mut o = vec![];
        let _ = write(disordered(v, true), &mut o);
        o.len()
    }),
    ("write as a map key", |v| {
        let mut o = vec![];
        let _ = write(Value::Map(vec![(disordered(v, false), Value::Unsigned(0))]), &mut o);
        o.len()
    }),
    ("write within map keys", |v| {
        let mut o = vec![];
        let mut v = disordered(v, true);
        for _ in 0..20 {
            v = Value::Map(vec![(Value::Array(vec![v]), Value::Unsigned(0))]);
        }
        let _ = write(v, &mut o);
        o.len()
    }),
    ("to_vec(Vec<Value>)", |v| match v {
        Value::Array(a) => cbor::to_vec(a).len(),
        _ => 0,
    }),
    ("to_value(HashMap)", |v| match v {
        Value::Map(m) => {
            let m: HashMap<u64, Vec<u8>> = (0..m.len()).map(|i| (i as u64, vec![1, 2])).collect();
            cbor::to_vec(m).len()
        }
        _ => 0,
    }),
    ("to_vec(HashSet)", |v| match v {
        Value::Map(m) => {
            let m: HashSet<u64> = (0..m.len() as u64).collect();
            cbor::to_vec(m).len()
        }
        _ => 0,
    }),
    ("serde::to_vec(Vec<(u64, String)>)", |v| match v {
        Value::Map(m) => {
            let m: Vec<(u64, String)> = (0..m.len()).map(|i| (i as u64, "ab".into())).collect();
            cbor::serde::to_vec(&m).unwrap().len()
        }
        _ => 0,
    }),
    ("serde::to_vec(HashMap)", |v| match v {
        Value::Map(m) => {
            let m: HashMap<u64, u64> = (0..m.len()).map(|i| (i as u64, 1)).collect();
            cbor::serde::to_vec(&m).unwrap().len()
        }
        _ => 0,
    }),
    ("to_vec(Vec<Outer>)", |v| {
        let a: Vec<Outer> = (0..entries(&v))
            .map(|i| match i % 3 {
                0 => Outer::Zero,
                1 => Outer::In(Inner::Two(i as u64)),
                _ => Outer::In(Inner::One),
            })
            .collect();
        cbor::to_vec(a).len()
    }),
    ("to_vec(Pairs)", |v| cbor::to_vec(Pairs((0..entries(&v)).map(|i| Pair(i as u64, 1)).collect())).len()),
    ("to_vec(Vec<Rec>)", |v| {
        let a: Vec<Rec> = (0..entries(&v) / 8)
            .map(|i| Rec { a: i as u64, list: vec![], m: BTreeMap::from([("x".to_string(), vec![1])]) })
            .collect();
        cbor::to_vec(a).len()
    }),
    ("to_vec(BTreeSet)", |v| {
        let a: BTreeSet<String> = (0..entries(&v) / 4).map(|i| i.to_string()).collect();
        cbor::to_vec(a).len()
    }),
    ("to_vec(HashSet<Vec<u8>>)", |v| {
        let a: HashSet<Vec<u8>> = (0..entries(&v) / 4).map(|i| (i as u32).to_le_bytes().to_vec()).collect();
        cbor::to_vec(a).len()
    }),
    ("serde::to_vec(Vec<SEnum>)", |v| {
        let a: Vec<SEnum> = (0..entries(&v) / 2)
            .map(|i| match i % 3 {
                0 => SEnum::A,
                1 => SEnum::B(i as u64),
                _ => SEnum::C { x: i as u64 },
            })
            .collect();
        cbor::serde::to_vec(&a).unwrap().len()
    }),
];

fn entries(v: &Value) -> usize {
    match v {
        Value::Array(a) => a.len(),
        Value::Map(m) => m.len(),
        _ => 0,
    }
}

fn reversed(v: Value) -> Value {
    match v {
        Value::Map(mut m) => {
            m.reverse();
            Value::Map(m)
        }
        v => v,
    }
}

/// All entries of all maps in another order: from last to first, or scattered.
fn disordered(v: Value, scatter: bool) -> Value {
    match v {
        Value::Map(m) => {
            let mut m: Vec<(Value, Value)> =
                m.into_iter().map(|(k, v)| (disordered(k, scatter), disordered(v, scatter))).collect();
            if scatter {
                let n = m.len();
                let mut at = 1usize;
                for i in (1..n).rev() {
                    at = at.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    m.swap(i, (at >> 20) % (i + 1));
                }
            } else {
                m.reverse();
            }
            Value::Map(m)
        }
        Value::Array(a) => Value::Array(a.into_iter().map(|x| disordered(x, scatter)).collect()),
        Value::Tag(t, x) => Value::Tag(t, Box::new(disordered(*x, scatter))),
        v => v,
    }
}

/// Dense inputs of about n bytes.
fn dense(r: &mut Rng, n: usize, style: usize) -> Vec<u8> {
    let mut o = vec![];
    match style {
        0..=4 => {
            let fill = [0x00u8, 0x80, 0xa0, 0x40, 0xf6][style];
            head(&mut o, 4, n as u64);
            o.extend(vec![fill; n]);
        }
        5 => {
            head(&mut o, 5, n as u64 / 6);
            for i in 0..n / 6 {
                head_w(&mut o, 0, 0x1_0000 + i as u64, 4);
                o.push(0x80);
            }
        }
        6 => {
            // Text and bytes.
            head(&mut o, 3, n as u64);
            o.extend(gen::text_n(r, n).into_bytes());
        }
        7 => {
            head(&mut o, 2, n as u64);
            o.extend(gen::bytes(r, n));
        }
        8 => {
            // Many chains of full depth.
            let k = n / 62;
            head(&mut o, 4, k as u64);
            for _ in 0..k {
                o.extend(vec![0x81; 61]);
                o.push(0);
            }
        }
        9 => {
            let k = n / 64;
            head(&mut o, 4, k as u64);
            for _ in 0..k {
                for _ in 0..31 {
                    o.extend([0xa1, 0x00]);
                }
                o.push(0);
            }
        }
        10 => {
            // Long equal-prefix keys.
            let k = n / 44;
            head(&mut o, 5, k as u64);
            for i in 0..k {
                head(&mut o, 3, 40);
                o.extend(format!("{:040}", i).into_bytes());
                o.push(0);
            }
        }
        11 => {
            // Arrays as keys, sharing long prefixes.
            let k = n / 40;
            head(&mut o, 5, k as u64);
            for i in 0..k {
                head(&mut o, 4, 34);
                o.extend([0u8; 33]);
                head_w(&mut o, 0, 0x1_0000 + i as u64, 4);
                o.push(0);
            }
        }
        12 => {
            // A tower of tags and arrays far beyond any limit.
            o.extend((0..n).map(|i| if i % 2 == 0 { 0xc1 } else { 0x81 }));
        }
        13 => o.extend(vec![0x81; n]),
        14 => o.extend(vec![0xc1; n]),
        15 => o.extend((0..n).map(|i| if i % 2 == 0 { 0xa1 } else { 0x00 })),
        16 => o.extend(vec![0xa1; n]),
        17 => {
            // Array of small strings.
            head(&mut o, 4, n as u64 / 2);
            for _ in 0..n / 2 {
                o.extend([0x61, b'a']);
            }
        }
        18 => {
            // A list of Rec-shaped maps.
            let k = n / 6;
            o.extend([0xa1, 0x64]);
            o.extend(b"list");
            head(&mut o, 4, k as u64);
            for _ in 0..k {
                o.extend([0xa1, 0x61, b'a', 0x05]);
            }
        }
        19 => {
            // Distinct integers.
            head(&mut o, 4, n as u64 / 5);
            for i in 0..n / 5 {
                head_w(&mut o, 0, 0x1_0000 + i as u64, 4);
            }
        }
        20 => {
            // Distinct short text keys.
            head(&mut o, 5, n as u64 / 8);
            for i in 0..n / 8 {
                o.push(0x66);
                o.extend(format!("k{:05}", i).into_bytes());
                o.push(1);
            }
        }
        21 => {
            // Pairs.
            head(&mut o, 4, n as u64 / 3);
            for _ in 0..n / 3 {
                o.extend([0x82, 1, 2]);
            }
        }
        23 | 24 | 25 => {
            // Distinct keys from last to first, in no order, or from both ends (non-strict only).
            let k = n / 6;
            let mut ks: Vec<u64> = (0..k as u64).rev().collect();
            match style {
                24 => r.shuffle(&mut ks),
                25 => ks = (0..k as u64).map(|i| if i % 2 == 0 { i } else { k as u64 - i }).collect(),
                _ => {}
            }
            head(&mut o, 5, k as u64);
            for i in ks {
                head_w(&mut o, 0, 0x1_0000 + i, 4);
                o.push(1);
            }
        }
        26 => {
            // One large map as a key.
            let k = n / 6;
            o.push(0xa1);
            head(&mut o, 5, k as u64);
            for i in 0..k {
                head_w(&mut o, 0, 0x1_0000 + i as u64, 4);
                o.push(1);
            }
            o.push(0);
        }
        27 => {
            // Many small maps as keys.
            let k = n / 12;
            head(&mut o, 5, k as u64);
            for i in 0..k {
                o.extend([0xa2, 0x00]);
                head_w(&mut o, 0, 0x1_0000 + i as u64, 4);
                o.extend([0x01, 0x80, 0x00]);
            }
        }
        28 => {
            // A large map some levels down.
            let k = n / 6;
            for _ in 0..20 {
                o.extend([0xa1, 0x00, 0x81, 0xc1]);
            }
            head(&mut o, 5, k as u64);
            for i in 0..k {
                head_w(&mut o, 1, 0x1_0000 + i as u64, 4);
                o.push(1);
            }
        }
        _ => {
            // Unsorted, repeated keys (non-strict decoding only).
            head(&mut o, 5, n as u64 / 2);
            for i in 0..n / 2 {
                o.extend([23 - (i % 24) as u8, 0]);
            }
        }
    }
    o
}

const STYLES: usize = 30;

pub fn c07(run: &Runner) {
    let nd = DECODERS.len() as u64;
    run.stage("claims", 60_000, 3_000_000, |c| {
        let b = claims(&mut c.r);
        c.seen_bytes(&b);
        c.sample(|| hexs(&b));
        let d = c.r.below(DECODERS.len());
        mem_one(c, &b, d);
        mem_one(c, &b, 0);
        mem_one(c, &b, 3);
    });
    run.stage_n("single-claims", 64 * 8 * 4, |c| {
        // One head claiming 2^k (-1, +0, +1, +random) items, alone and with some content.
        let k = c.idx % 64;
        let major = ((c.idx / 64) % 8) as u8;
        let n = (1u64 << k).wrapping_add(c.idx / 512).wrapping_sub(1);
        for extra in [0usize, 1, 5, 100] {
            for outer in [0usize, 1, 20] {
                let mut b = vec![0x81; outer];
                head(&mut b, major, n);
                b.extend(vec![0u8; extra]);
                c.seen_bytes(&b);
                for d in 0..nd as usize {
                    mem_one(c, &b, d);
                }
            }
        }
    });
    run.stage("hostile", 60_000, 2_000_000, |c| {
        let b = gen::input(&mut c.r);
        c.seen_bytes(&b);
        let d = c.r.below(DECODERS.len());
        mem_one(c, &b, d);
        mem_one(c, &b, 0);
    });
    run.stage_n("dense", STYLES as u64 * nd * 3, |c| {
        let style = (c.idx % STYLES as u64) as usize;
        let d = ((c.idx / STYLES as u64) % nd) as usize;
        let n = [700, 9_000, 100_000][(c.idx / STYLES as u64 / nd) as usize];
        let b = dense(&mut c.r, n, style);
        c.seen_bytes(&b);
        mem_one(c, &b, d);
    });
    // Encoding: memory in proportion to the value, and nothing left behind.
    run.stage_n("encode", STYLES as u64 * ENCODERS.len() as u64 * 3, |c| {
        let style = (c.idx % STYLES as u64) as usize;
        let e = ((c.idx / STYLES as u64) % ENCODERS.len() as u64) as usize;
        let n = [700, 9_000, 100_000][(c.idx / STYLES as u64 / ENCODERS.len() as u64) as usize];
        let b = dense(&mut c.r, n, style);
        c.eval();
        let v = match target(|| read_nested_non_strict(&b, Some(127))) {
            Ok(Ok(v)) => v,
            _ => return,
        };
        c.seen(hash_bytes(&b) ^ e as u64);
        let f = ENCODERS[e].1;
        let v2 = v.clone();
        drop(v);
        match target(move || measure(move || f(v2))) {
            Ok((_, u)) => {
                c.count("encoded");
                c.count(match u.peak / (b.len() as u64 + 128) {
                    0..=63 => "encode_peak_per_byte_under_64",
                    64..=255 => "encode_peak_per_byte_64_to_255",
                    _ => "encode_peak_per_byte_over_255",
                });
                if u.peak > peak_bound(b.len()) {
                    c.fail(
                        "encode-memory-peak",
                        format!("{} of a value of {} encoded bytes (style {}) allocates {} bytes", ENCODERS[e].0, b.len(), style, u.peak),
                    );
                }
                if u.total > total_bound(b.len()) || u.calls > 2 * calls_bound(b.len()) {
                    c.fail(
                        "encode-memory-total",
                        format!("{} of a value of {} encoded bytes (style {}) allocates {} bytes in {} requests", ENCODERS[e].0, b.len(), style, u.total, u.calls),
                    );
                }
                if u.live > 0 {
                    c.fail("encode-leak", format!("{} style {} leaves {} bytes", ENCODERS[e].0, style, u.live));
                }
            }
            Err(p) => c.fail("resource-panic", cut(format!("{} style {} panics: {}", ENCODERS[e].0, style, p))),
        }
    });
    run.stage_n("encode-time", STYLES as u64 * ENCODERS.len() as u64, |c| {
        let style = (c.idx % STYLES as u64) as usize;
        let e = (c.idx / STYLES as u64) as usize;
        let mut rr = c.r.clone();
        let f = ENCODERS[e].1;
        let mut vs = vec![];
        if SLOW.load(AtOrd::Relaxed) >= 6 {
            return;
        }
        for n in [16_000, 128_000, 512_000] {
            let b = dense(&mut rr.clone(), n, style);
            match target(|| read_nested_non_strict(&b, Some(127))) {
                Ok(Ok(v)) => vs.push(v),
                _ => return,
            }
        }
        c.eval();
        c.seen(c.idx);
        let mid = vs.remove(1);
        let small = vs[0].clone();
        if let Some((a, b)) = slow_early(
            || {
                let v = small.clone();
                let _ = target(move || f(v));
            },
            || {
                let v = mid.clone();
                let _ = target(move || f(v));
            },
        ) {
            c.fail("encode-time", format!("{} style {}: {:.4} CPU s for 16 kB, {:.1} CPU s for 128 kB", ENCODERS[e].0, style, a, b));
            return;
        }
        let mut best = [f64::MAX; 2];
        for i in 0..2 {
            for _ in 0..3 {
                let v = vs[i].clone();
                let t0 = cpu();
                let _ = target(move || f(v));
                best[i] = best[i].min(cpu() - t0);
                if best[i] < 0.5 && i == 1 {
                    break;
                }
            }
        }
        c.count("encode_times");
        if best[1] > 2.0 && best[1] / best[0].max(1e-6) > 300.0 {
            c.fail(
                "encode-time",
                format!("{} style {}: {:.4} CPU s for 16 kB, {:.1} CPU s for 512 kB", ENCODERS[e].0, style, best[0], best[1]),
            );
        }
    });
    // Comparing values: a common prefix must not be walked more than once per level.
    run.stage_n("compare-time", STYLES as u64, |c| {
        let b = dense(&mut c.r, 256_000, c.idx as usize);
        let v = match target(|| read_nested_non_strict(&b, Some(127))) {
            Ok(Ok(v)) => v,
            _ => return,
        };
        let w = v.clone();
        c.eval();
        let t0 = cpu();
        let r = target(|| (v.cmp(&w), v == w));
        let t = cpu() - t0;
        if r != Ok((Ordering::Equal, true)) && r.is_err() {
            c.fail("resource-panic", format!("comparison, style {}: {:?}", c.idx, r));
        }
        if t > 5.0 {
            c.fail("compare-time", format!("comparing equal values of {} bytes takes {:.1} CPU s", b.len(), t));
        }
    });
    // Chains as deep as a limit allows, compared and written: no blow-up with depth.
    run.stage("deep-chains", 2_000, 60_000, |c| {
        let n = c.r.range(1, 120);
        let core = gen::scalar_small(&mut c.r);
        let mut t = core;
        let kind = c.r.below(4);
        for _ in 0..n {
            t = match (kind, c.r.below(3)) {
                (0, _) | (3, 0) => A(vec![t]),
                (1, _) | (3, 1) => M(vec![(t, U(0))]),
                _ => G(1, Box::new(t)),
            };
        }
        let v = to_value(&t);
        let w = v.clone();
        c.eval();
        c.seen(shape_hash(&t));
        let t0 = cpu();
        let _ = target(|| {
            let x = v.cmp(&w);
            let mut o = vec![];
            let _ = write(v, &mut o);
            let _ = read_nested(&o, Some(127));
            x
        });
        let dt = cpu() - t0;
        if dt > 2.0 {
            c.fail("depth-time", format!("a chain of {} levels takes {:.1} CPU s", n, dt));
        }
    });
    // Time: CPU time of the thread for inputs 32 times as long, judged only when far from linear
    // and seconds long, so that neither load nor noise can decide.
    run.stage_n("time", STYLES as u64 * nd, |c| {
        let style = (c.idx % STYLES as u64) as usize;
        let d = (c.idx / STYLES as u64) as usize;
        let mut rr = c.r.clone();
        if SLOW.load(AtOrd::Relaxed) >= 6 {
            // Enough was reported; more of it would only take long.
            return;
        }
        let small = dense(&mut rr, 16_000, style);
        let mid = dense(&mut rr.clone(), 128_000, style);
        let big = dense(&mut rr, 512_000, style);
        c.eval();
        c.seen(c.idx);
        let f = DECODERS[d].1;
        if let Some((a, b)) = slow_early(|| { let _ = target(|| f(&small)); }, || { let _ = target(|| f(&mid)); }) {
            c.fail("time", format!("{} style {}: {} bytes take {:.4} CPU s, {} bytes take {:.1} CPU s", DECODERS[d].0, style, small.len(), a, mid.len(), b));
            return;
        }
        let mut best = [f64::MAX; 2];
        for (i, b) in [&small, &big].into_iter().enumerate() {
            for _ in 0..3 {
                let t0 = cpu();
                let _ = target(|| f(b));
                best[i] = best[i].min(cpu() - t0);
                if best[i] < 0.5 && i == 1 {
                    break;
                }
            }
        }
        let ratio = best[1] / best[0].max(1e-6);
        c.count(match ratio as u64 {
            0..=15 => "time_ratio_under_16",
            16..=63 => "time_ratio_16_to_63",
            64..=199 => "time_ratio_64_to_199",
            _ => "time_ratio_over_200",
        });
        if best[1] > 2.0 && ratio > 300.0 {
            c.fail(
                "time",
                format!(
                    "{} style {}: {} bytes take {:.4} CPU s, {} bytes take {:.1} CPU s",
                    DECODERS[d].0,
                    style,
                    small.len(),
                    best[0],
                    big.len(),
                    best[1]
                ),
            );
        }
    });
    // Stack: however deep the input, decoding with a limit stays within a default thread stack.
    run.stage_n("stack", STYLES as u64 * nd, |c| {
        let style = (c.idx % STYLES as u64) as usize;
        let d = (c.idx / STYLES as u64) as usize;
        let b = dense(&mut c.r, 400_000, style);
        c.seen_bytes(&b);
        c.eval();
        let f = DECODERS[d].1;
        let r = on_thread(2 << 20, || target(|| f(&b)));
        match r {
            Ok(_) => c.count("stack_runs"),
            Err(p) => c.fail("resource-panic", cut(format!("{} panics: {}", DECODERS[d].0, p))),
        }
    });
}

static SLOW: AtomicU32 = AtomicU32::new(0);

/// Judge 8 times the size first, so that what is far from linear ends in seconds.
fn slow_early(small: impl Fn(), mid: impl Fn()) -> Option<(f64, f64)> {
    let time = |f: &dyn Fn()| {
        let t0 = cpu();
        f();
        cpu() - t0
    };
    let b = time(&mid);
    if b < 1.0 {
        return None;
    }
    let a = time(&small).max(time(&small)).max(time(&small));
    if b / a.max(1e-6) > 30.0 {
        SLOW.fetch_add(1, AtOrd::Relaxed);
        return Some((a, b));
    }
    None
}

fn cpu() -> f64 {
    extern "C" {
        fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

//! C06 no panics (value layer), C12 determinism and purity, C23 error kinds, C24 macros.
use super::*;

// -- C06 ---------------------------------------------------------------------------------------

fn all_decoders(c: &mut Ctx, b: &[u8], lim: Option<i8>) {
    c.evals(6);
    let r = target(|| {
        let a = read_nested(b, lim);
        let d = format!("{:?}", a).len();
        let n = read_nested_non_strict(b, lim);
        if let (Ok(x), Ok(y)) = (&a, &n) {
            let _ = x == y;
        }
        let v = cbor::from_slice::<Value>(b);
        let w = cbor::from_slice_non_strict::<Value>(b);
        let _ = (format!("{:?}", v).len(), format!("{}", v.is_ok()), w.is_ok(), d);
        let _ = cbor::read(b).is_ok();
        let _ = cbor::serde::from_slice::<serde::de::IgnoredAny>(b).map_err(|e| e.to_string());
        a.is_ok()
    });
    match r {
        Ok(true) => c.count("decoded"),
        Ok(false) => c.count("refused"),
        Err(p) => c.fail("panic", cut(format!("decoding {} with limit {:?} panics: {}", hexs(b), lim, p))),
    }
}

/// Strings decoded into owned types of several kinds.
fn string_decoders(c: &mut Ctx, b: &[u8]) {
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    c.evals(14);
    let r = target(|| {
        macro_rules! dec {
            ($($t:ty),*) => { [$({
                let a = cbor::from_slice::<$t>(b);
                let n = cbor::from_slice_non_strict::<$t>(b);
                let k = a.is_ok();
                let _ = (a.map_err(|e| (e.to_string(), format!("{:?}", e))).is_ok(), n.map_err(|e| e.to_string()).is_ok());
                k as u64
            }),*].iter().sum::<u64>() };
        }
        let mut n = dec!(String, Vec<u8>, Option<String>, Vec<String>, Vec<Vec<u8>>, BTreeMap<String, String>, HashMap<String, Vec<u8>>, BTreeSet<String>, BTreeSet<Vec<u8>>, (String, Vec<u8>), Value, u64);
        macro_rules! sdec {
            ($($t:ty),*) => { $({
                let k = cbor::serde::from_slice::<$t>(b);
                n += k.is_ok() as u64;
                let _ = k.map_err(|e| (e.to_string(), format!("{:?}", e))).is_ok();
            })* };
        }
        sdec!(String, char, Vec<u8>, Vec<String>, BTreeMap<String, String>, BTreeSet<String>, (String, String), serde::de::IgnoredAny);
        n
    });
    match r {
        Ok(n) if n > 0 => c.count("string_decoded"),
        Ok(_) => c.count("string_refused"),
        Err(p) => c.fail("panic", cut(format!("decoding {} as a type with strings panics: {}", hexs(b), p))),
    }
}

/// A long string, in a place where some type takes it.
fn long_strings(r: &mut Rng) -> Vec<u8> {
    let one = |r: &mut Rng| {
        let n = match r.below(4) {
            0 => r.range(200, 5000),
            1 => gen::big_len(r).min(20_000),
            2 => r.below(200),
            _ => r.range(200, 1200),
        };
        match r.below(4) {
            0 => B(gen::bytes(r, n)),
            1 => {
                // All characters of one width, at any offset.
                let w = *r.pick(&["é", "€", "𝄞", "\u{7f}", "ß"]);
                let mut s = "a".repeat(r.below(4));
                while s.len() < n {
                    s.push_str(w);
                }
                T(s)
            }
            _ => T(gen::text_n(r, n)),
        }
    };
    let x = one(r);
    let v = match r.below(6) {
        0 | 1 => x,
        2 => A(vec![one(r), x]),
        3 => A(vec![x, T(gen::text(r, 20))]),
        4 => M(vec![(x, T(gen::text(r, 20)))]),
        _ => M(vec![(T(gen::text(r, 20)), x)]),
    };
    let mut b = raw(&v);
    if r.one_in(4) {
        gen::mutate(&mut b, r);
    }
    b
}

pub fn c06(run: &Runner) {
    run.stage_n("short-exhaustive", 1 + 256 + 65536, |c| {
        let b = match c.idx {
            0 => vec![],
            1..=256 => vec![(c.idx - 1) as u8],
            i => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        c.seen(c.idx);
        all_decoders(c, &b, Some(64));
    });
    run.stage_n("short3-exhaustive", 1 << 16, |c| {
        for k in 0..256u64 {
            let b = [(c.idx >> 8) as u8, c.idx as u8, k as u8];
            c.eval();
            let r = target(|| (read_nested(&b, Some(64)).is_ok(), read_nested_non_strict(&b, Some(64)).is_ok()));
            if let Err(p) = r {
                c.fail("panic", format!("decoding {} panics: {}", hexs(&b), p));
            }
        }
    });
    run.stage("hostile", 200_000, 12_000_000, |c| {
        let b = gen::input(&mut c.r);
        c.seen_bytes(&b);
        c.sample(|| hexs(&b));
        let lim = match c.r.below(4) {
            0 => Some(c.r.u64() as i8),
            1 if b.len() < 4000 => None,
            _ => Some(64),
        };
        all_decoders(c, &b, lim);
    });
    run.stage("large", 150, 5_000, |c| {
        let v = gen::large(&mut c.r);
        let mut b = raw(&v);
        if c.r.bool() {
            gen::mutate(&mut b, &mut c.r);
        }
        c.seen_bytes(&b);
        all_decoders(c, &b, Some(64));
        string_decoders(c, &b);
    });
    run.stage("strings", 20_000, 800_000, |c| {
        let b = if c.r.one_in(3) { gen::input(&mut c.r) } else { long_strings(&mut c.r) };
        c.seen_bytes(&b);
        string_decoders(c, &b);
    });
    run.stage("deep", 3_000, 100_000, |c| {
        let h = c.r.below(300);
        let v = gen::chain(&mut c.r, h);
        let mut b = raw(&v);
        if c.r.bool() {
            gen::mutate(&mut b, &mut c.r);
        }
        c.seen_bytes(&b);
        let lim = c.r.u64() as i8;
        all_decoders(c, &b, Some(lim));
    });
    run.stage("values", 60_000, 2_000_000, |c| {
        // Values no byte string denotes: unsorted and repeated keys, odd negative integers.
        let v = odd_value(&mut c.r, 3);
        c.eval();
        let s = cut(format!("{:?}", v));
        let r = target(|| {
            let _ = cbor::from_value::<Value>(v.clone());
            let _ = v.clone().cmp(&v);
            let _ = cbor::serde::from_value::<serde::de::IgnoredAny>(v.clone()).is_ok();
            let _ = cbor::serde::from_value::<Vec<i64>>(v.clone()).map_err(|e| e.to_string());
            let _ = cbor::serde::from_value::<i8>(v.clone()).map_err(|e| e.to_string());
            let _ = cbor::serde::from_value::<String>(v).map_err(|e| e.to_string());
        });
        c.seen(hash_bytes(s.as_bytes()));
        if let Err(p) = r {
            c.fail("panic", cut(format!("decoding the value {} panics: {}", s, p)));
        }
    });
}

/// Values including ones outside the data model.
pub fn odd_value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 10 }) {
        0 => Value::Unsigned(gen::int(r)),
        1 => Value::Negative(match r.below(6) {
            0 => 0,
            1 => gen::int(r) as i128,
            2 => i128::MIN,
            3 => i128::MAX,
            4 => -(1i128 << r.below(127)),
            _ => -1 - gen::int(r) as i128,
        }),
        2 => Value::ByteString(gen::bstr(r, 40)),
        3 => Value::TextString(gen::text(r, 40)),
        4 | 5 => to_value(&S(20 + r.below(4) as u8)),
        6 | 7 => {
            let n = r.below(5);
            Value::Array((0..n).map(|_| odd_value(r, depth - 1)).collect())
        }
        8 => {
            let n = r.below(5);
            let mut m: Vec<(Value, Value)> =
                (0..n).map(|_| (odd_value(r, depth - 1), odd_value(r, depth - 1))).collect();
            if n > 0 && r.bool() {
                m.push(m[0].clone());
            }
            Value::Map(m)
        }
        _ => Value::Tag(gen::int(r), Box::new(odd_value(r, depth - 1))),
    }
}

// -- C12 ---------------------------------------------------------------------------------------

fn outcome(b: &[u8], v: &Value, k: u8) -> Vec<u8> {
    match k {
        0 => format!("{:?}", read_nested(b, Some(64))).into_bytes(),
        1 => format!("{:?}", read_nested_non_strict(b, Some(64))).into_bytes(),
        2 => format!("{:?}", cbor::from_slice::<Vec<u64>>(b).map_err(|e| e.to_string())).into_bytes(),
        3 => format!(
            "{:?}",
            cbor::serde::from_slice::<std::collections::BTreeMap<u64, u64>>(b).map_err(|e| e.to_string())
        )
        .into_bytes(),
        4 => format!("{:?}", cbor::from_slice_non_strict::<Value>(b).map_err(|e| e.to_string())).into_bytes(),
        6 => format!("{:?}", cbor::from_slice::<Value>(b).map_err(|e| e.to_string())).into_bytes(),
        _ => {
            let mut o = vec![];
            match write(v.clone(), &mut o) {
                Ok(()) => o,
                Err(e) => format!("{:?}", e).into_bytes(),
            }
        }
    }
}

pub fn c12(run: &Runner) {
    // The same batch of operations alone, again, in another order, and from several threads at
    // once gives the same results every time.
    run.stage("batches", 2_500, 60_000, |c| {
        let n = 24;
        let mut ops: Vec<(Vec<u8>, Value, u8)> = vec![];
        for _ in 0..n {
            let b = gen::input(&mut c.r);
            let v = gen::any(&mut c.r);
            let v = if c.r.one_in(6) { super::p_parse::dup_some(&v, &mut c.r) } else { v };
            let v = scramble(&v, &mut c.r);
            let k = c.r.below(7) as u8;
            c.seen(hash_bytes(&b) ^ k as u64);
            ops.push((b, to_value(&v), k));
        }
        let first: Vec<Result<Vec<u8>, String>> =
            ops.iter().map(|(b, v, k)| target(|| outcome(b, v, *k))).collect();
        c.evals(n);
        for r in &first {
            if let Ok(r) = r {
                c.digest(r);
            }
        }
        // Every op again: in the same order (its history differs), then shuffled with repeats.
        let mut order: Vec<usize> = (0..ops.len()).collect();
        for round in 0..3 {
            if round > 0 {
                c.r.shuffle(&mut order);
            }
            for &i in &order {
                let (b, v, k) = &ops[i];
                let again = target(|| outcome(b, v, *k));
                c.eval();
                c.count("repeats");
                if again != first[i] {
                    c.fail("history", cut(format!("op {} on {} differs when repeated: {} vs {}", k, hexs(b), txt(&first[i]), txt(&again))));
                }
            }
        }
        // Concurrently.
        let mut seeds = vec![];
        for _ in 0..4 {
            seeds.push(c.r.u64());
        }
        let res: Vec<Vec<(usize, Result<Vec<u8>, String>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|sd| {
                    let ops = &ops;
                    let sd = *sd;
                    s.spawn(move || {
                        no_slot();
                        let mut r = Rng::new(sd, "order", 0);
                        let mut o: Vec<usize> = (0..ops.len()).collect();
                        r.shuffle(&mut o);
                        o.into_iter()
                            .map(|i| {
                                let (b, v, k) = &ops[i];
                                (i, target(|| outcome(b, v, *k)))
                            })
                            .collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for t in res {
            for (i, r) in t {
                c.eval();
                c.count("concurrent_repeats");
                if r != first[i] {
                    c.fail("concurrency", cut(format!("op {} on {} differs among threads: {} vs {}", ops[i].2, hexs(&ops[i].0), txt(&first[i]), txt(&r))));
                }
            }
        }
    });
    // Long histories of all kinds of calls, each judged by the models.
    run.stage("histories", 2_000, 60_000, |c| {
        for _ in 0..30 {
            super::p_parse::any_call(c);
        }
        if c.idx % 64 == 5 {
            // A burst of the same refusal (or of the same success) through one entry point.
            let v = gen::any(&mut c.r);
            let b = match c.r.below(4) {
                0 => raw(&v),
                1 => gen::input(&mut c.r),
                2 => raw(&gen::chain(&mut c.r, 130)),
                _ => {
                    let f = *c.r.pick(gen::FAULTS);
                    gen::with_fault(&v, f, &mut c.r).unwrap_or_else(|| raw(&v))
                }
            };
            let k = c.r.below(7) as u8;
            let v = to_value(&v);
            if b.len() < 300 {
                for _ in 0..c.r.range(100, 3_000) {
                    let _ = target(|| outcome(&b, &v, k));
                }
                c.count("bursts");
            }
        }
        c.seen(c.idx);
    });
    // Other bytes of the same length in the same place.
    run.stage("same-place", 6_000, 200_000, |c| {
        let Some(v) = canon(&gen::any(&mut c.r)) else { return };
        let first = raw(&v);
        let mut buf = first.clone();
        c.seen_bytes(&buf);
        for round in 0..10 {
            if round > 0 {
                buf.copy_from_slice(&first);
                if c.r.one_in(3) {
                    let other = gen::alike(&buf, &mut c.r);
                    buf.copy_from_slice(&other);
                }
                for _ in 0..if c.r.one_in(4) { 0 } else { c.r.range(1, 3) } {
                    let i = c.r.below(buf.len());
                    match c.r.below(3) {
                        0 => buf[i] ^= 1 << c.r.below(5),
                        1 => buf[i] = buf[i] & 0xe0 | c.r.below(24) as u8,
                        _ => buf[i] = buf[i].wrapping_add(1),
                    }
                }
            }
            let strict = parse_strict(&buf, Some(64)).ok();
            let lax = parse_lax(&buf, Some(64)).ok().map(|x| x.0);
            if strict.is_some() {
                c.count("same_place.readable");
            }
            let got: [(&str, Result<Option<RV>, String>, &Option<RV>); 6] = [
                ("read_nested", target(|| read_nested(&buf, Some(64)).ok()).map(|r| r.and_then(|v| from_value(&v))), &strict),
                ("read_nested_non_strict", target(|| read_nested_non_strict(&buf, Some(64)).ok()).map(|r| r.and_then(|v| from_value(&v))), &lax),
                ("from_slice", target(|| cbor::from_slice::<Value>(&buf).ok()).map(|r| r.and_then(|v| from_value(&v))), &strict),
                ("from_slice_non_strict", target(|| cbor::from_slice_non_strict::<Value>(&buf).ok()).map(|r| r.and_then(|v| from_value(&v))), &lax),
                ("from_slice::<Vec<Value>>", target(|| cbor::from_slice::<Vec<Value>>(&buf).ok()).map(|r| r.and_then(|v| v.iter().map(from_value).collect::<Option<Vec<_>>>().map(A))), &strict),
                ("read again", target(|| read_nested(&buf, Some(64)).ok()).map(|r| r.and_then(|v| from_value(&v))), &strict),
            ];
            for (how, got, want) in got {
                c.eval();
                // What the typed entry points make of undefined and of other types is not the point here.
                let skip = match how {
                    "from_slice" | "from_slice_non_strict" => *want == Some(UNDEF),
                    "from_slice::<Vec<Value>>" => !matches!(want, Some(A(x)) if !x.contains(&UNDEF)),
                    _ => false,
                };
                if skip {
                    continue;
                }
                if got.as_ref() != Ok(want) {
                    c.fail("same-place", cut(format!("{} of {} after other bytes in the same place gives {:?}", how, hexs(&buf), got)));
                }
            }
        }
    });
    // Many threads at once on what is barely within or beyond a limit, large and small.
    run.stage("contended", 60, 2_000, |c| {
        let mut ops: Vec<(Vec<u8>, Value, u8)> = vec![];
        for k in 0..10u8 {
            let limit = if k % 2 == 0 { 127 } else { 64 };
            let h = limit + 1 - c.r.below(3).min(2);
            let steps = gen::steps(&mut c.r, h);
            let v = gen::scalar_small(&mut c.r);
            let v = if c.r.one_in(4) { M(vec![(v.clone(), U(0)), (v, U(0))]) } else { v };
            let v = gen::wrap_value(&steps, v);
            let v = scramble(&v, &mut c.r);
            let b = raw(&v);
            ops.push((b, to_value(&v), if k < 6 { 9 } else { k % 5 }));
        }
        let n = c.r.range(2000, 9000);
        ops.push((vec![], Value::ByteString(gen::bytes(&mut c.r, n)), 9));
        let first: Vec<_> = ops.iter().map(|(b, v, k)| target(|| outcome(b, v, *k))).collect();
        let bar = std::sync::Barrier::new(8);
        let bad: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8usize)
                .map(|t| {
                    let (ops, first, bar) = (&ops, &first, &bar);
                    s.spawn(move || {
                        no_slot();
                        bar.wait();
                        for i in 0..400usize {
                            let j = (i * (2 * t + 1) + t) % ops.len();
                            let (b, v, k) = &ops[j];
                            let r = target(|| outcome(b, v, *k));
                            if r != first[j] {
                                return Some((j, txt(&r)));
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        c.evals(8 * 400);
        c.add("contended_repeats", 8 * 400);
        c.seen(ops.iter().fold(0, |h, o| h ^ hash_bytes(&o.0).rotate_left(3)));
        for (j, t) in bad.into_iter().flatten() {
            c.fail("concurrency", cut(format!("op {} on {} differs among threads: {} vs {}", ops[j].2, hexs(&ops[j].0), txt(&first[j]), t)));
        }
    });
    run.stage("held-order", 60_000, 2_000_000, |c| {
        let v = gen::any(&mut c.r);
        let a = to_value(&scramble(&v, &mut c.r));
        let b = to_value(&scramble(&v, &mut c.r));
        c.eval();
        c.seen(shape_hash(&v));
        c.sample(|| show(&v));
        let ra = target(|| outcome(&[], &a, 9));
        let rb = target(|| outcome(&[], &b, 9));
        if let Ok(x) = &ra {
            c.digest(x);
        }
        if ra != rb {
            c.fail("order", cut(format!("two orders of {} encode differently: {} vs {}", show(&v), txt(&ra), txt(&rb))));
        }
    });
    // A long run of calls in one process: results must not drift with the number of calls made.
    run.stage("long-history", 8, 64, |c| {
        let b = gen::input(&mut c.r);
        let v = to_value(&gen::any(&mut c.r));
        let k = c.r.below(7) as u8;
        let mut probes: Vec<(Vec<u8>, Value, u8)> = (0..7u8)
            .map(|k| {
                let x = gen::any(&mut c.r);
                let bytes = canon(&x).map(|x| raw(&x)).unwrap_or_default();
                (bytes, to_value(&x), k)
            })
            .chain(std::iter::once((b, v, k)))
            .collect();
        // Deep ones, within the limits and beyond them.
        for k in 0..14u8 {
            let h = if k < 7 { c.r.range(17, 65) } else { c.r.range(65, 135) };
            let x = gen::chain(&mut c.r, h);
            probes.push((canon(&x).map(|x| raw(&x)).unwrap_or_default(), to_value(&x), k % 7));
        }
        let first: Vec<_> = probes.iter().map(|(b, v, k)| target(|| outcome(b, v, *k))).collect();
        for i in 0..20_000usize {
            let j = i % probes.len();
            let (b, v, k) = &probes[j];
            if b.len() > 600 {
                continue;
            }
            let r = target(|| outcome(b, v, *k));
            c.eval();
            if r != first[j] {
                c.fail("drift", cut(format!("op {} on {} changes after {} calls: {} vs {}", k, hexs(b), i, txt(&first[j]), txt(&r))));
                break;
            }
        }
    });
}

fn txt(r: &Result<Vec<u8>, String>) -> String {
    match r {
        Ok(b) => match std::str::from_utf8(b) {
            Ok(s) => s.chars().take(300).collect(),
            Err(_) => hexs(b),
        },
        Err(p) => format!("PANIC {}", p),
    }
}

// -- C23 ---------------------------------------------------------------------------------------

fn kind_of<T>(r: Result<Result<T, DecoderError>, String>) -> String {
    match r {
        Ok(Ok(_)) => "accepted".into(),
        Ok(Err(e)) => format!("{:?}", e),
        Err(p) => format!("panic {}", p),
    }
}

pub fn c23(run: &Runner) {
    run.stage("one-fault", 300_000, 10_000_000, |c| {
        let v = gen::any(&mut c.r);
        let Some(v) = canon(&v) else { return };
        if height(&v) > 60 {
            return;
        }
        let f = *c.r.pick(gen::FAULTS);
        let Some(b) = gen::with_fault(&v, f, &mut c.r) else { return };
        kinds(c, f, &b);
    });
    run.stage("one-fault-large", 300, 10_000, |c| {
        let v = gen::large(&mut c.r);
        let Some(v) = canon(&v) else { return };
        let f = *c.r.pick(gen::FAULTS);
        let Some(b) = gen::with_fault(&v, f, &mut c.r) else { return };
        kinds(c, f, &b);
    });
    run.stage_n("depth", 256 * 60, |c| {
        let lim = (c.idx % 256) as u8 as i8;
        let over = c.r.range(1, 5);
        let h = (lim as i64).max(-1) + over as i64;
        let v = gen::chain(&mut c.r, h.max(0) as usize);
        let Some(v) = canon(&v) else { return };
        let b = raw(&v);
        c.seen_bytes(&b);
        c.evals(2);
        for strict in [true, false] {
            let k = kind_of(target(|| {
                if strict {
                    read_nested(&b, Some(lim))
                } else {
                    read_nested_non_strict(&b, Some(lim))
                }
            }));
            c.count("depth");
            if k != "TooMuchNesting" {
                c.fail("kind", cut(format!("{} (limit {}, strict {}) is {} instead of TooMuchNesting", hexs(&b), lim, strict, k)));
            }
        }
        let tv = to_value(&v);
        let e = target(|| write_nested(tv, &mut vec![], Some(lim)));
        if e != Ok(Err(EncoderError::TooMuchNesting)) {
            c.fail("kind", cut(format!("writing {} with limit {}: {:?}", show(&v), lim, e)));
        }
    });
    run.stage("write-deep", 40_000, 1_000_000, write_kinds);
    run.stage("edge", 40_000, 1_000_000, |c| {
        // One fault where the limit is just reached.
        let mut bud = 10;
        let d = c.r.range(1, 3);
        let v = if c.r.bool() { gen::scalar(&mut c.r) } else { gen::value(&mut c.r, d, &mut bud) };
        let Some(v) = canon(&v) else { return };
        let f = *c.r.pick(gen::FAULTS);
        let Some(b) = gen::with_fault(&v, f, &mut c.r) else { return };
        let k = 64usize.saturating_sub(height(&v) + c.r.below(2));
        let steps = gen::steps(&mut c.r, k);
        let b = match f {
            // These are faults of the whole input.
            Fault::Truncate => {
                let b = raw(&gen::wrap_value(&steps, v));
                let n = if c.r.bool() { b.len() - 1 } else { c.r.below(b.len()) };
                b[..n].to_vec()
            }
            Fault::Trailing => {
                let mut b = raw(&gen::wrap_value(&steps, v));
                b.push(c.r.u64() as u8);
                b
            }
            _ => gen::wrap_bytes(&steps, &b),
        };
        kinds(c, f, &b);
    });
    run.stage("write-dup", 40_000, 1_000_000, |c| {
        let mut b = 20;
        let n = c.r.range(1, 8);
        let m = gen::map(&mut c.r, n, 2, &mut b);
        let M(mut m) = m else { return };
        if m.is_empty() {
            return;
        }
        let i = c.r.below(m.len());
        let k = scramble(&m[i].0, &mut c.r);
        m.push((k, U(0)));
        let v = M(m);
        c.eval();
        c.count("duplicate_key_writes");
        c.seen(hash_bytes(&raw(&v)));
        let tv = to_value(&v);
        let e = target(|| write(tv, &mut vec![]));
        if e != Ok(Err(EncoderError::DuplicateMapKey)) {
            c.fail("kind", cut(format!("writing {}: {:?}", show(&v), e)));
        }
    });
}

/// One thing wrong at a time: too deep by some levels, whatever is down there; or equal keys well
/// within the limit.
fn write_kinds(c: &mut Ctx) {
    let v = match c.r.below(3) {
        0 => {
            let mut b = 25;
            let n = c.r.range(1, 8);
            gen::map(&mut c.r, n, 2, &mut b)
        }
        _ => gen::any(&mut c.r),
    };
    let k = c.r.below(20);
    let steps = gen::steps(&mut c.r, k);
    let v = gen::wrap_value(&steps, v);
    let v = scramble(&v, &mut c.r);
    let h = height(&v);
    if h == 0 || h > 127 || canon(&v).is_none() {
        return;
    }
    let lim = if c.r.bool() { h - 1 } else { c.r.below(h) };
    c.eval();
    c.count("deep_writes");
    c.seen(hash_bytes(&raw(&v)));
    let tv = to_value(&v);
    let e = target(|| write_nested(tv, &mut vec![], Some(lim as i8)));
    if e != Ok(Err(EncoderError::TooMuchNesting)) {
        c.fail("kind", cut(format!("writing {} of height {} with limit {}: {:?}", show(&v), h, lim, e)));
    }
}

fn kinds(c: &mut Ctx, f: Fault, b: &[u8]) {
    let (want, lax): (&str, Option<&str>) = match f {
        Fault::NonMinimal => ("NonMinimalCborEncoding", None),
        Fault::Truncate => ("IncompleteCborData", Some("IncompleteCborData")),
        Fault::Trailing => ("ExtraneousData", None),
        Fault::BadUtf8 => ("InvalidUtf8", Some("InvalidUtf8")),
        Fault::SwapKeys | Fault::DupKey => ("OutOfOrderKey", None),
        Fault::ReservedAi => ("UnknownAdditionalInfo", Some("UnknownAdditionalInfo")),
        Fault::BadSimple => ("UnsupportedSimpleValue", None),
        Fault::Float => ("UnsupportedFloatingPointValue", None),
        Fault::Depth => return,
    };
    c.evals(4);
    c.count(want);
    c.seen_bytes(b);
    c.sample(|| format!("{:?} {}", f, hexs(b)));
    let got = kind_of(target(|| read_nested(b, Some(64))));
    if got != want {
        c.fail("kind", cut(format!("{} ({:?}) is reported as {} instead of {}", hexs(b), f, got, want)));
    }
    let got = kind_of(target(|| read_nested_non_strict(b, Some(64))));
    let lw = lax.unwrap_or("accepted");
    if got != lw {
        c.fail("kind-lax", cut(format!("{} ({:?}) is reported as {} instead of {} in non-strict mode", hexs(b), f, got, lw)));
    }
    match target(|| cbor::from_slice::<Value>(b)) {
        Ok(Err(cbor::DecodeError::ParsingFailed)) => {}
        x => c.fail("kind-typed", cut(format!("from_slice of {} gives {:?} instead of ParsingFailed", hexs(b), x))),
    }
    match target(|| cbor::serde::from_slice::<serde::de::IgnoredAny>(b)) {
        Ok(Err(cbor::serde::Error::ByteDecoder(e))) if format!("{:?}", e) == want => {}
        x => c.fail("kind-serde", cut(format!("serde::from_slice of {} gives {:?} instead of ByteDecoder({})", hexs(b), x, want))),
    }
}

// -- C24 ---------------------------------------------------------------------------------------

use cbor::values::{IntoCborValue, IntoCborValueOption};

fn expect(c: &mut Ctx, name: &str, got: Result<Value, String>, want: &RV) {
    c.eval();
    c.count(name);
    match got {
        Ok(v) if same(&v, want) => {}
        Ok(v) => c.fail("constructor", cut(format!("{} gives {} instead of {}", name, show_v(&v), show(want)))),
        Err(p) => c.fail("constructor", cut(format!("{} panics: {} (wanted {})", name, p, show(want)))),
    }
}

fn ri(i: i64) -> RV {
    if i >= 0 {
        U(i as u64)
    } else {
        N((-1 - i) as u64)
    }
}

pub fn c24(run: &Runner) {
    use cbor::{
        cbor_array, cbor_array_vec, cbor_bool, cbor_bytes, cbor_bytes_lit, cbor_false, cbor_int, cbor_map,
        cbor_map_collection, cbor_map_options, cbor_null, cbor_tagged, cbor_text, cbor_true, cbor_undefined,
        cbor_unsigned,
    };
    run.stage("constructors", 150_000, 4_000_000, |c| {
        let u = gen::int(&mut c.r);
        let i = gen::int(&mut c.r) as i64;
        let i = if c.r.bool() { i } else { i.wrapping_neg() };
        let w = i as i32;
        let b = gen::bstr(&mut c.r, 60);
        let s = gen::text(&mut c.r, 60);
        let f = c.r.bool();
        c.seen(hash_bytes(format!("{} {} {:?} {} {}", u, i, b, s, f).as_bytes()));
        c.sample(|| format!("u={} i={} b={} s={:?}", u, i, hexs(&b), s));
        expect(c, "from_u64", target(|| Value::from(u)), &U(u));
        expect(c, "from_i64", target(|| Value::from(i)), &ri(i));
        expect(c, "from_i32", target(|| Value::from(w)), &ri(w as i64));
        expect(c, "integer", target(|| Value::integer(i)), &ri(i));
        expect(c, "cbor_int", target(|| cbor_int!(i)), &ri(i));
        expect(c, "cbor_unsigned", target(|| cbor_unsigned!(u)), &U(u));
        expect(c, "from_vec_u8", target(|| Value::from(b.clone())), &B(b.clone()));
        expect(c, "from_slice_u8", target(|| Value::from(&b[..])), &B(b.clone()));
        expect(c, "cbor_bytes", target(|| cbor_bytes!(b.clone())), &B(b.clone()));
        expect(c, "cbor_bytes_lit", target(|| cbor_bytes_lit!(&b[..])), &B(b.clone()));
        expect(c, "from_string", target(|| Value::from(s.clone())), &T(s.clone()));
        expect(c, "from_str", target(|| Value::from(&s[..])), &T(s.clone()));
        expect(c, "cbor_text", target(|| cbor_text!(s.clone())), &T(s.clone()));
        let sb = S(if f { 21 } else { 20 });
        expect(c, "from_bool", target(|| Value::from(f)), &sb);
        expect(c, "bool_value", target(|| Value::bool_value(f)), &sb);
        expect(c, "cbor_bool", target(|| cbor_bool!(f)), &sb);
        expect(c, "cbor_true", target(|| cbor_true!()), &S(21));
        expect(c, "cbor_false", target(|| cbor_false!()), &S(20));
        expect(c, "cbor_null", target(|| cbor_null!()), &S(22));
        expect(c, "cbor_undefined", target(|| cbor_undefined!()), &S(23));
        expect(
            c,
            "cbor_tagged",
            target(|| cbor_tagged!(u, cbor_int!(i))),
            &G(u, Box::new(ri(i))),
        );
        expect(
            c,
            "cbor_array",
            target(|| cbor_array![u, i, w, f, s.clone(), b.clone(), &s[..], &b[..]]),
            &A(vec![U(u), ri(i), ri(w as i64), sb.clone(), T(s.clone()), B(b.clone()), T(s.clone()), B(b.clone())]),
        );
        expect(
            c,
            "cbor_map",
            target(|| cbor_map! { u => i, s.clone() => f, b.clone() => s.clone(), w => b.clone() }),
            &M(vec![
                (U(u), ri(i)),
                (T(s.clone()), sb.clone()),
                (B(b.clone()), T(s.clone())),
                (ri(w as i64), B(b.clone())),
            ]),
        );
        let o1 = if c.r.bool() { Some(i) } else { None };
        let o2: Option<String> = if c.r.bool() { Some(s.clone()) } else { None };
        let mut m = vec![];
        if let Some(x) = o1 {
            m.push((U(u), ri(x)));
        }
        m.push((T(s.clone()), sb.clone()));
        if let Some(x) = &o2 {
            m.push((B(b.clone()), T(x.clone())));
        }
        expect(
            c,
            "cbor_map_options",
            target(|| cbor_map_options! { u => o1, s.clone() => f, b.clone() => o2.clone() }),
            &M(m),
        );
        let opt = target(|| (u.into_cbor_value_option(), None::<bool>.into_cbor_value_option(), Some(i).into_cbor_value_option()));
        match opt {
            Ok((Some(a), None, Some(z))) if same(&a, &U(u)) && same(&z, &ri(i)) => {}
            x => c.fail("constructor", cut(format!("into_cbor_value_option: {:?}", x))),
        }
    });
    run.stage("collections", 60_000, 2_000_000, |c| {
        let v = gen::any(&mut c.r);
        c.seen(shape_hash(&v));
        match &v {
            A(a) => {
                let tv: Vec<Value> = a.iter().map(to_value).collect();
                let t2 = tv.clone();
                expect(c, "from_vec_value", target(|| Value::from(tv)), &v);
                expect(c, "cbor_array_vec", target(|| cbor_array_vec!(t2)), &v);
            }
            M(m) => {
                let tv: Vec<(Value, Value)> = m.iter().map(|(k, x)| (to_value(k), to_value(x))).collect();
                let t2 = tv.clone();
                expect(c, "from_vec_pairs", target(|| Value::from(tv)), &v);
                expect(c, "cbor_map_collection", target(|| cbor_map_collection!(t2)), &v);
            }
            _ => {}
        }
        let tv = to_value(&v);
        let want = match &v {
            U(_) => 0,
            N(_) => 1,
            B(_) => 2,
            T(_) => 3,
            A(_) => 4,
            M(_) => 5,
            G(..) => 6,
            S(_) => 7,
        };
        let tv2 = tv.clone();
        if target(|| tv2.type_label()) != Ok(want) {
            c.fail("type-label", show(&v));
        }
        expect(c, "value_into_cbor_value", target(|| IntoCborValue::into_cbor_value(tv)), &v);
    });
    run.stage_n("simple", 70_000, |c| {
        let n = match c.idx {
            0..=65_999 => c.idx,
            _ => gen::int(&mut c.r),
        };
        c.eval();
        let r = target(|| SimpleValue::from_integer(n)).map(|x| x.map(|y| y as u64));
        let w = if (20..24).contains(&n) { Some(n) } else { None };
        if r != Ok(w) {
            c.fail("simple", format!("from_integer({}) = {:?}", n, r));
        }
    });
    run.stage("destructure", 150_000, 4_000_000, |c| {
        // Maps with strictly increasing keys, probed with strictly increasing needles.
        let mut pool: Vec<RV> = probe_pool(&mut c.r, 1);
        pool.sort_by(|a, b| raw(a).cmp(&raw(b)));
        pool.dedup();
        let mut map: Vec<(RV, RV)> = vec![];
        for k in &pool {
            if c.r.below(3) > 0 {
                map.push((k.clone(), gen::scalar_small(&mut c.r)));
            }
        }
        let mut needles: Vec<RV> = pool.iter().filter(|_| c.r.bool()).cloned().collect();
        if pool.len() > 12 && c.r.bool() {
            // A few of many.
            let mut i = c.r.below(3);
            needles.retain(|_| {
                i += 1;
                i % 17 == 0
            });
        }
        for _ in 0..c.r.below(3) {
            needles.push(probe_key(&mut c.r));
        }
        needles.sort_by(|a, b| raw(a).cmp(&raw(b)));
        needles.dedup();
        let tm: Vec<(Value, Value)> = map.iter().map(|(k, v)| (to_value(k), to_value(v))).collect();
        c.eval();
        c.seen(hash_bytes(&raw(&M(map.clone()))) ^ hash_bytes(&raw(&A(needles.clone()))));
        c.sample(|| format!("{} needles {}", show(&M(map.clone())), show(&A(needles.clone()))));
        let tm2 = tm.clone();
        let nv: Vec<Value> = needles.iter().map(to_value).collect();
        let nv2 = nv.clone();
        let lenient = c.r.bool();
        let got = target(move || {
            let mut it = tm2.into_iter().peekable();
            let found = nv
                .into_iter()
                .map(|n| match lenient {
                    // What derived decoders that allow unknown fields use.
                    true => cbor::macros::destructure_cbor_map_peek_value_allow_unknown(&mut it, n).ok().flatten(),
                    false => oasis_cbor_value_peek(&mut it, n),
                })
                .collect::<Vec<_>>();
            (found, it.collect::<Vec<_>>())
        });
        match got {
            Ok((g, rest)) => {
                // What lies beyond the last needle is left for others.
                let left: Vec<(RV, RV)> = match needles.last() {
                    Some(n) => map.iter().filter(|e| raw(&e.0) > raw(n)).cloned().collect(),
                    None => map.clone(),
                };
                let rest: Vec<_> = rest.iter().filter_map(|(k, v)| Some((from_value(k)?, from_value(v)?))).collect();
                if rest != left {
                    c.fail("destructure-rest", cut(format!("{} of {} is left after {}, not {}", show(&M(rest)), show(&M(map.clone())), show(&A(needles.clone())), show(&M(left)))));
                }
                let held: std::collections::HashMap<Vec<u8>, &RV> = map.iter().map(|(k, v)| (raw(k), v)).collect();
                for (n, g) in needles.iter().zip(g) {
                    let w = held.get(&raw(n)).map(|v| (*v).clone());
                    let g = g.map(|v| from_value(&v));
                    c.count(if w.is_some() { "needle_found" } else { "needle_absent" });
                    if g != w.clone().map(Some) {
                        c.fail("destructure", cut(format!("{} in {}: {:?} instead of {:?}", show(n), show(&M(map.clone())), g, w)));
                    }
                }
            }
            Err(p) => c.fail("destructure", p),
        }
        // The strict variant: an entry before the needle is an unknown field.
        let got = target(move || {
            let mut it = tm.into_iter().peekable();
            let mut out = vec![];
            for n in nv2 {
                match cbor::macros::destructure_cbor_map_peek_value_strict(&mut it, n) {
                    Ok(v) => out.push(v),
                    Err(e) => return Err(format!("{:?}", e)),
                }
            }
            Ok(out)
        });
        let mut p = 0;
        let mut want: Result<Vec<Option<RV>>, String> = Ok(vec![]);
        for n in &needles {
            let nb = raw(n);
            if p < map.len() && raw(&map[p].0) < nb {
                want = Err("UnknownField".into());
                break;
            }
            if p < map.len() && raw(&map[p].0) == nb {
                want.as_mut().unwrap().push(Some(map[p].1.clone()));
                p += 1;
            } else {
                want.as_mut().unwrap().push(None);
            }
        }
        let got2 = got.map(|r| r.map(|v| v.into_iter().map(|x| x.and_then(|y| from_value(&y))).collect::<Vec<_>>()));
        if got2 != Ok(want.clone()) {
            c.fail("destructure-strict", cut(format!("{} probed with {}: {:?} instead of {:?}", show(&M(map)), show(&A(needles)), got2, want)));
        }
    });
    run.stage("destructure-macro", 60_000, 1_500_000, |c| {
        let keys = [
            U(1),
            U(23),
            U(24),
            U(70000),
            N(0),
            N(300),
            T("".into()),
            T("b".into()),
            T("aa".into()),
            T("key".into()),
        ];
        let mut map = vec![];
        for k in &keys {
            if c.r.bool() {
                map.push((k.clone(), gen::scalar_small(&mut c.r)));
            }
        }
        for k in probe_pool(&mut c.r, 0) {
            map.push((k, U(0)));
        }
        map.sort_by(|a, b| raw(&a.0).cmp(&raw(&b.0)));
        map.dedup_by(|a, b| a.0 == b.0);
        let tm: Vec<(Value, Value)> = map.iter().map(|(k, v)| (to_value(k), to_value(v))).collect();
        c.eval();
        c.seen(hash_bytes(&raw(&M(map.clone()))));
        let got = target(move || macro_probe(tm));
        match got {
            Ok(g) => {
                for (k, g) in keys.iter().zip(g) {
                    let w = map.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone());
                    if g.map(|v| from_value(&v)) != w.clone().map(Some) {
                        c.fail("destructure-macro", cut(format!("{} in {}", show(k), show(&M(map.clone())))));
                    }
                }
            }
            Err(p) => c.fail("destructure-macro", p),
        }
    });
    run.stage("sorted-keys", 60_000, 1_500_000, |c| {
        // The assertion accepts exactly the strictly increasing sequences.
        let ks: Vec<RV> = (0..3).map(|_| probe_key(&mut c.r)).collect();
        let mut ks = ks;
        if c.r.bool() {
            ks.sort_by(|a, b| raw(a).cmp(&raw(b)));
        }
        let ok = raw(&ks[0]) < raw(&ks[1]) && raw(&ks[1]) < raw(&ks[2]);
        let v: Vec<Value> = ks.iter().map(to_value).collect();
        c.eval();
        c.seen(hash_bytes(&raw(&A(ks.clone()))));
        let r = target(|| {
            cbor::assert_sorted_keys!(v[0].clone(), v[1].clone(), v[2].clone(),);
        });
        c.count(if ok { "sorted" } else { "unsorted" });
        if r.is_ok() != ok {
            c.fail("assert-sorted", cut(format!("{}: {:?}", show(&A(ks)), r)));
        }
    });
}

fn oasis_cbor_value_peek(
    it: &mut std::iter::Peekable<std::vec::IntoIter<(Value, Value)>>,
    n: Value,
) -> Option<Value> {
    oasis_cbor_value::macros::destructure_cbor_map_peek_value(it, n)
}

fn macro_probe(tm: Vec<(Value, Value)>) -> Vec<Option<Value>> {
    use oasis_cbor_value::destructure_cbor_map;
    destructure_cbor_map! {
        let {
            1 => a,
            23 => b,
            24 => c,
            70000 => d,
            -1 => e,
            -301 => f,
            "" => g,
            "b" => h,
            "aa" => i,
            "key" => j,
        } = tm;
    }
    vec![a, b, c, d, e, f, g, h, i, j]
}

/// Keys of a map: mostly few, now and then many, mixed or close to each other.
fn probe_pool(r: &mut Rng, min: usize) -> Vec<RV> {
    if !r.one_in(12) {
        return (0..r.range(min, 9)).map(|_| probe_key(r)).collect();
    }
    let n = if r.one_in(20) { r.below(1500) } else { r.below(150) };
    match r.below(4) {
        0 => (0..n as u64).map(U).collect(),
        1 => (0..n).map(|i| T(format!("k{}", i))).collect(),
        2 => (0..n as u64).map(|i| if i % 2 == 0 { U(i * 9) } else { N(i) }).collect(),
        _ => (0..n).map(|_| U(gen::int(r))).collect(),
    }
}

fn probe_key(r: &mut Rng) -> RV {
    match r.below(8) {
        0 | 1 => U(r.below(30) as u64),
        2 => U(gen::int(r)),
        3 => N(r.below(30) as u64),
        4 => N(gen::int(r)),
        5 => B(gen::bstr(r, 3)),
        6 if r.one_in(3) => {
            let k = *r.pick(&["", "a", "b", "aa", "k", "key", "kb"]);
            super::p_order::near(&T(k.into()), r)
        }
        6 if r.one_in(60) => gen::long_string(r),
        _ => {
            let n = r.below(4);
            T((0..n).map(|_| *r.pick(&['a', 'b', 'k'])).collect())
        }
    }
}

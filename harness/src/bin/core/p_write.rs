//! C02 canonical encoding, C03 value round trip.
use super::*;

fn enc(v: Value) -> Result<Result<Vec<u8>, EncoderError>, String> {
    target(|| {
        let mut o = Vec::new();
        write(v, &mut o).map(|_| o)
    })
}

pub fn check_canonical(c: &mut Ctx, v: &RV) {
    // Four ways of writing, with a buffer that already holds something in two of them.
    let want = ref_encode(v);
    let height = height(v);
    if height > 127 {
        return;
    }
    let pre_n = match c.r.below(150) {
        0 => *c.r.pick(&[4096usize, 65_535, 65_536, 70_000, 140_000]),
        _ => *c.r.pick(&[0usize, 1, 7, 24, 300]),
    };
    let prefix = gen::bytes(&mut c.r, pre_n);
    let api = c.r.below(4);
    for a in [0usize, 1 + api % 3] {
        c.eval();
        let tv = to_value(v);
        let mut buf = prefix.clone();
        let (name, got): (&str, Result<Result<Vec<u8>, String>, String>) = match a {
            0 => (
                "write",
                target(|| write(tv, &mut buf).map_err(|e| format!("{:?}", e)).map(|_| vec![])),
            ),
            1 => (
                "write_nested(127)",
                target(|| {
                    write_nested(tv, &mut buf, Some(127)).map_err(|e| format!("{:?}", e)).map(|_| vec![])
                }),
            ),
            2 => (
                "write_nested(None)",
                target(|| {
                    write_nested(tv, &mut buf, None).map_err(|e| format!("{:?}", e)).map(|_| vec![])
                }),
            ),
            _ => {
                if want.is_none() {
                    continue;
                }
                ("to_vec", target(|| Ok(cbor::to_vec(tv))))
            }
        };
        let out = match a {
            0 | 1 | 2 => {
                if buf.len() < prefix.len() || buf[..prefix.len()] != prefix[..] {
                    c.fail(
                        "prefix",
                        cut(format!("{} changed what was in the buffer before ({} -> {}) for {}", name, hexs(&prefix), hexs(&buf), show(v))),
                    );
                    continue;
                }
                got.map(|r| r.map(|_| buf[prefix.len()..].to_vec()))
            }
            _ => got,
        };
        match (&out, &want) {
            (Ok(Ok(o)), Some(w)) => {
                c.count("encoded");
                if o != w {
                    c.fail(
                        "not-canonical",
                        cut(format!("{} of {} gives {} instead of {}", name, show(v), hexs(o), hexs(w))),
                    );
                }
            }
            (Ok(Err(e)), None) => {
                c.count("refused_duplicate");
                if e != "DuplicateMapKey" {
                    c.fail("dup-kind", cut(format!("{} of {} fails with {} instead of DuplicateMapKey", name, show(v), e)));
                }
            }
            (Ok(Ok(o)), None) => c.fail(
                "dup-accepted",
                cut(format!("{} of {} gives {} although a map holds equal keys", name, show(v), hexs(o))),
            ),
            (Ok(Err(e)), Some(_)) => {
                c.fail("refused", cut(format!("{} of {} fails with {}", name, show(v), e)))
            }
            (Err(p), _) => c.fail("write-panic", cut(format!("{} of {} panics: {}", name, show(v), p))),
        }
    }
}

fn count_maps(v: &RV, in_key: bool, n: &mut (u64, u64)) {
    match v {
        A(a) => a.iter().for_each(|x| count_maps(x, in_key, n)),
        M(m) => {
            if m.len() > 1 {
                if in_key {
                    n.1 += 1
                } else {
                    n.0 += 1
                }
            }
            for (k, x) in m {
                count_maps(k, true, n);
                count_maps(x, in_key, n);
            }
        }
        G(_, x) => count_maps(x, in_key, n),
        _ => {}
    }
}

/// Insert an entry whose key equals an existing one (perhaps held in another order).
fn add_dup(v: &RV, r: &mut Rng, done: &mut bool) -> RV {
    match v {
        A(a) => {
            let n = a.len();
            let at = if n == 0 { 0 } else { r.below(n) };
            A(a.iter()
                .enumerate()
                .map(|(i, x)| if i == at { add_dup(x, r, done) } else { x.clone() })
                .collect())
        }
        M(m) if !m.is_empty() => {
            let mut m = m.clone();
            let i = r.below(m.len());
            if r.bool() {
                let inner = if r.bool() {
                    add_dup(&m[i].1, r, done)
                } else {
                    m[i].1.clone()
                };
                m[i].1 = inner;
                if *done {
                    return M(m);
                }
                let k = add_dup(&m[i].0, r, done);
                m[i].0 = k;
                if *done {
                    return M(m);
                }
            }
            let k = scramble(&m[i].0, r);
            let val = if r.bool() { m[i].1.clone() } else { gen::scalar_small(r) };
            let at = r.below(m.len() + 1);
            if r.one_in(50) {
                // The repeated key is a long one.
                let k = gen::long_string(r);
                m.push((k.clone(), U(0)));
                m.insert(at, (k, val));
                *done = true;
                return M(m);
            }
            m.insert(at, (k, val));
            *done = true;
            M(m)
        }
        G(t, x) => G(*t, Box::new(add_dup(x, r, done))),
        x => x.clone(),
    }
}

pub fn c02(run: &Runner) {
    run.stage("scrambled", 150_000, 8_000_000, |c| {
        let v = gen::any(&mut c.r);
        let v = scramble(&v, &mut c.r);
        let mut n = (0, 0);
        count_maps(&v, false, &mut n);
        c.add("maps_with_order", n.0);
        c.add("maps_in_keys_with_order", n.1);
        c.seen(shape_hash(&v));
        c.sample(|| show(&v));
        check_canonical(c, &v);
    });
    run.stage("map-keys", 100_000, 5_000_000, |c| {
        // Maps whose keys hold maps, in any order.
        let n = c.r.range(1, 6);
        let mut b = 60;
        let mut m = vec![];
        for _ in 0..n {
            let k = if c.r.one_in(60) { gen::long_string(&mut c.r) } else { gen::key(&mut c.r, 3, &mut b) };
            let k = if c.r.bool() {
                k
            } else {
                let k2 = gen::key(&mut c.r, 2, &mut b);
                match c.r.below(3) {
                    0 => M(vec![(k.clone(), k2.clone()), (U(1), k)]),
                    1 => A(vec![M(vec![(T("z".into()), k2), (T("a".into()), U(2))]), k]),
                    _ => G(7, Box::new(M(vec![(N(3), k2), (U(3), k)]))),
                }
            };
            m.push((k, gen::scalar_small(&mut c.r)));
        }
        let mut v = M(m);
        for _ in 0..c.r.below(3) {
            v = match c.r.below(3) {
                0 => A(vec![v]),
                1 => M(vec![(T("w".into()), v), (U(0), U(0))]),
                _ => G(1, Box::new(v)),
            };
        }
        let v = scramble(&v, &mut c.r);
        let mut n = (0, 0);
        count_maps(&v, false, &mut n);
        c.add("maps_with_order", n.0);
        c.add("maps_in_keys_with_order", n.1);
        c.seen(shape_hash(&v));
        c.sample(|| show(&v));
        check_canonical(c, &v);
    });
    run.stage("near-keys", 100_000, 5_000_000, |c| {
        // Few keys that differ in one place only.
        let mut b = 20;
        let k = match c.r.below(40) {
            0 => gen::long_string(&mut c.r),
            1 => A(vec![gen::scalar_small(&mut c.r), gen::long_string(&mut c.r)]),
            _ => gen::key(&mut c.r, 3, &mut b),
        };
        let n = c.r.range(1, 5);
        let mut m = vec![(k.clone(), U(0))];
        for i in 0..n {
            let base = c.r.below(m.len());
            let k2 = super::p_order::near(&m[base].0.clone(), &mut c.r);
            m.push((k2, U(i as u64 + 1)));
        }
        let v = scramble(&M(m), &mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        check_canonical(c, &v);
    });
    run.stage("duplicates", 80_000, 3_000_000, |c| {
        let v = match c.r.below(3) {
            0 => {
                let mut b = 40;
                let n = c.r.range(1, 30);
                gen::map(&mut c.r, n, 3, &mut b)
            }
            _ => gen::any(&mut c.r),
        };
        let mut done = false;
        let v = add_dup(&v, &mut c.r, &mut done);
        if !done {
            return;
        }
        c.seen(hash_bytes(&raw(&v)));
        c.sample(|| show(&v));
        check_canonical(c, &v);
    });
    run.stage("heads", 60_000, 2_000_000, |c| {
        // Every width of argument for every major type.
        let n = gen::int(&mut c.r);
        let v = match c.r.below(4) {
            0 => U(n),
            1 => N(n),
            2 => G(n, Box::new(U(0))),
            _ => A(vec![U(n), N(n), G(n, Box::new(N(n)))]),
        };
        c.seen(hash_bytes(&raw(&v)));
        check_canonical(c, &v);
    });
    run.stage_n("lengths", 4 * 340, |c| {
        let v = length_case(c.idx, &mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        check_canonical(c, &v);
    });
    run.stage("large", 150, 5_000, |c| {
        let v = gen::large(&mut c.r);
        let v = scramble(&v, &mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        check_canonical(c, &v);
        if let M(m) = &v {
            // One duplicate in a large map.
            let mut m = m.clone();
            let i = c.r.below(m.len());
            let e = m[i].clone();
            let at = c.r.below(m.len() + 1);
            m.insert(at, e);
            check_canonical(c, &M(m));
        }
    });
    run.stage("edge", 30_000, 1_000_000, |c| {
        // Order and duplicates where the limit on nesting is just reached.
        let mut b = 14;
        let v = match c.r.below(4) {
            0 => {
                let k = gen::key(&mut c.r, 2, &mut b);
                let k2 = super::p_order::near(&k, &mut c.r);
                M(vec![(k, U(0)), (k2, U(1))])
            }
            1 => {
                let n = c.r.range(1, 4);
                gen::map(&mut c.r, n, 1, &mut b)
            }
            _ => {
                let d = c.r.range(1, 3);
                gen::value(&mut c.r, d, &mut b)
            }
        };
        let mut done = false;
        let v = if c.r.one_in(3) { add_dup(&v, &mut c.r, &mut done) } else { v };
        let limit = match c.r.below(3) {
            0 => c.r.below(127),
            _ => *c.r.pick(&[64usize, 127]),
        };
        let h = height(&v);
        let k = limit.saturating_sub(h + (c.r.one_in(4) as usize));
        let steps = gen::steps(&mut c.r, k);
        let v = gen::wrap_value(&steps, v);
        let v = scramble(&v, &mut c.r);
        let h = height(&v);
        c.seen(hash_bytes(&raw(&v)));
        check_canonical(c, &v);
        if h > 127 {
            return;
        }
        // With exactly the limit it needs.
        c.eval();
        let tv = to_value(&v);
        let got = target(|| {
            let mut o = vec![];
            write_nested(tv, &mut o, Some(h as i8)).map(|_| o)
        });
        match (&got, ref_encode(&v)) {
            (Ok(Ok(o)), Some(w)) if *o == w => c.count("encoded"),
            (Ok(Err(EncoderError::DuplicateMapKey)), None) => c.count("refused_duplicate"),
            _ => c.fail("not-canonical", cut(format!("write_nested({}) of {} gives {:?}", h, show(&v), got.map(|x| x.map(|o| hexs(&o)))))),
        }
    });
    run.stage("depth-scrambled", 8_000, 200_000, |c| {
        let h = c.r.range(10, 126);
        let v = gen::chain(&mut c.r, h);
        let v = match c.r.below(2) {
            0 => v,
            _ => M(vec![(U(9), U(0)), (v, U(1)), (U(3), M(vec![(T("b".into()), U(0)), (T("a".into()), U(0))]))]),
        };
        let v = scramble(&v, &mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        check_canonical(c, &v);
    });
}

/// Strings, arrays and maps of every length up to 300 and around each boundary above.
fn length_case(idx: u64, r: &mut Rng) -> RV {
    let kind = idx % 4;
    let i = (idx / 4) as usize;
    let n = if i < 300 {
        i
    } else {
        [
            511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 9999, 10000,
            16383, 16384, 16385, 32767, 32768, 32769, 40000, 50000, 60000, 65533, 65534, 65535, 65536,
            65537, 65538, 70000, 99999, 100000, 100001, 131071, 131072, 131073, 200000, 262144, 300000,
        ][(i - 300) % 40]
    };
    match kind {
        0 => B(gen::bytes(r, n)),
        1 => T(gen::text_n(r, n)),
        2 => A((0..n).map(|i| U((i % 24) as u64)).collect()),
        _ => {
            let mut m: Vec<(RV, RV)> = (0..n).map(|i| (U(i as u64), U(0))).collect();
            if n > 1 && r.bool() {
                r.shuffle(&mut m);
            }
            M(m)
        }
    }
}

pub fn check_round(c: &mut Ctx, v: &RV) {
    let Some(want) = canon(v) else { return };
    let h = height(v);
    if h > 127 {
        return;
    }
    c.eval();
    let b = match enc(to_value(v)) {
        Ok(Ok(b)) => b,
        x => {
            c.fail("round-encode", cut(format!("encoding {} gives {:?}", show(v), x)));
            return;
        }
    };
    for mode in 0..4 {
        let got = match mode {
            0 => target(|| read_nested(&b, Some(127)).map_err(|e| format!("{:?}", e))),
            1 => target(|| read_nested_non_strict(&b, Some(127)).map_err(|e| format!("{:?}", e))),
            2 if h <= 64 => target(|| cbor::from_slice::<Value>(&b).map_err(|e| format!("{:?}", e))),
            3 if h <= 64 => {
                target(|| cbor::from_slice_non_strict::<Value>(&b).map_err(|e| format!("{:?}", e)))
            }
            _ => continue,
        };
        let w = if mode >= 2 && want == UNDEF { NULL } else { want.clone() };
        match &got {
            Ok(Ok(x)) if same(x, &w) => c.count("round_trips"),
            _ => c.fail(
                "round-trip",
                cut(format!("{} is encoded as {} and read back (mode {}) as {}", show(v), hexs(&b), mode, show_r(&got))),
            ),
        }
    }
    // Without bytes in between: to_value and from_value keep the value as it is.
    let tv = to_value(v);
    let got = target(|| cbor::from_value::<Value>(cbor::to_value(tv)).map_err(|e| format!("{:?}", e)));
    let w = if *v == UNDEF { NULL } else { v.clone() };
    match &got {
        Ok(Ok(x)) if same(x, &w) => {}
        _ => c.fail("round-value", cut(format!("to_value/from_value of {} gives {}", show(v), show_r(&got)))),
    }
}

pub fn c03(run: &Runner) {
    run.stage_n("lengths", 4 * 340, |c| {
        let v = length_case(c.idx, &mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        c.sample(|| show(&v));
        check_round(c, &v);
    });
    run.stage_n("integers", 64 * 9 * 3, |c| {
        let k = c.idx % 64;
        let d = (c.idx / 64) % 9;
        let n = (1u64 << k).wrapping_add(d).wrapping_sub(4);
        let v = match c.idx / 64 / 9 {
            0 => U(n),
            1 => N(n),
            _ => G(n, Box::new(U(n))),
        };
        c.seen(hash_bytes(&raw(&v)));
        check_round(c, &v);
        check_round(c, &A(vec![v.clone(), U(0), v.clone()]));
        check_round(c, &M(vec![(v.clone(), v)]));
    });
    run.stage("ints-all-small", 70_000, 400_000, |c| {
        let n = c.idx;
        c.seen(n);
        check_round(c, &U(n));
        check_round(c, &N(n));
    });
    run.stage("any", 120_000, 8_000_000, |c| {
        let v = gen::any(&mut c.r);
        let v = scramble(&v, &mut c.r);
        c.seen(shape_hash(&v));
        c.sample(|| show(&v));
        check_round(c, &v);
    });
    run.stage("alike", 10_000, 400_000, |c| {
        // One after another: values whose encodings differ in what weak sums over bytes do not see.
        let Some(v) = canon(&gen::any(&mut c.r)) else { return };
        let mut a = raw(&v);
        check_round(c, &v);
        for _ in 0..8 {
            let b = gen::alike(&a, &mut c.r);
            if let Ok(v) = parse_strict(&b, None) {
                c.seen(shape_hash(&v));
                c.count("alike.values");
                check_round(c, &v);
                a = b;
            }
        }
    });
    run.stage("depth", 15_000, 500_000, |c| {
        let h = c.r.below(128);
        let v = gen::chain(&mut c.r, h);
        c.seen(hash_bytes(&raw(&v)));
        check_round(c, &v);
    });
    run.stage("large", 150, 6_000, |c| {
        let v = gen::large(&mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        check_round(c, &v);
    });
}

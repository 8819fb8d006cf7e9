//! C01 strict acceptance, C05 nesting limits, C08 non-strict decoding.
use super::*;

fn to_default(v: RV) -> RV {
    // A top-level null or undefined decodes to the default of the target type (null for values).
    match v {
        S(22) | S(23) => NULL,
        v => v,
    }
}

/// One strict decoding through one entry point, judged against the reference parser.
fn strict_one(c: &mut Ctx, b: &[u8], api: usize) -> bool {
    c.eval();
    let (name, limit, got): (&str, i8, Result<Result<Value, String>, String>) = match api {
        0 => (
            "read_nested(64)",
            64,
            target(|| read_nested(b, Some(64)).map_err(|e| format!("{:?}", e))),
        ),
        1 => (
            "read",
            127,
            target(|| cbor::read(b).map_err(|e| format!("{:?}", e))),
        ),
        2 => (
            "from_slice",
            64,
            target(|| cbor::from_slice::<Value>(b).map_err(|e| format!("{:?}", e))),
        ),
        3 => (
            "read_nested(127)",
            127,
            target(|| read_nested(b, Some(127)).map_err(|e| format!("{:?}", e))),
        ),
        // 1000 plus a limit.
        n => {
            let l = (n - 1000) as i8;
            (
                "read_nested with a given limit",
                l,
                target(|| read_nested(b, Some(l)).map_err(|e| format!("{:?}", e))),
            )
        }
    };
    let want = parse_strict(b, Some(limit));
    match (&got, &want) {
        (Ok(Ok(v)), Ok(w)) => {
            let w2 = if api == 2 { to_default(w.clone()) } else { w.clone() };
            if !same(v, &w2) {
                c.fail(
                    "strict-value",
                    cut(format!("{} of {} gives {} instead of {}", name, hexs(b), show_v(v), show(&w2))),
                );
                return true;
            }
            c.count("accepted");
            // Encoding what was read gives back the bytes.
            let undef_top = api == 2 && matches!(w, S(23));
            if !undef_top {
                let v = v.clone();
                let again = target(|| {
                    let mut o = Vec::new();
                    write(v, &mut o).map(|_| o).map_err(|e| format!("{:?}", e))
                });
                match again {
                    Ok(Ok(o)) if o == b => {}
                    x => c.fail(
                        "strict-reencode",
                        cut(format!("{} of {} re-encodes as {:?}", name, hexs(b), x.map(|y| y.map(|z| hexs(&z))))),
                    ),
                }
            }
            true
        }
        (Ok(Err(_)), Err(k)) => {
            c.count(match k {
                Bad::Truncated => "rejected_truncated",
                Bad::Head => "rejected_head",
                Bad::NonMinimal => "rejected_nonminimal",
                Bad::Utf8 => "rejected_utf8",
                Bad::KeyOrder => "rejected_key_order",
                Bad::Simple => "rejected_simple",
                Bad::Float => "rejected_float",
                Bad::Depth => "rejected_depth",
                Bad::Trailing => "rejected_trailing",
            });
            false
        }
        (Ok(Ok(v)), Err(k)) => {
            c.fail(
                "strict-accepts-bad",
                cut(format!("{} of {} gives {} although the input is not canonical ({:?})", name, hexs(b), show_v(v), k)),
            );
            true
        }
        (Ok(Err(e)), Ok(w)) => {
            c.fail(
                "strict-rejects-good",
                cut(format!("{} of {} fails with {} although it is the canonical encoding of {}", name, hexs(b), e, show(w))),
            );
            true
        }
        (Err(p), _) => {
            c.fail("strict-panic", cut(format!("{} of {} panics: {}", name, hexs(b), p)));
            true
        }
    }
}

fn strict_all(c: &mut Ctx, b: &[u8]) {
    for api in 0..4 {
        strict_one(c, b, api);
    }
}

fn short(idx: u64) -> Vec<u8> {
    // 0: empty, then all 1-byte, 2-byte and 3-byte strings.
    let mut i = idx;
    if i == 0 {
        return vec![];
    }
    i -= 1;
    if i < 256 {
        return vec![i as u8];
    }
    i -= 256;
    if i < 65536 {
        return vec![(i >> 8) as u8, i as u8];
    }
    i -= 65536;
    vec![(i >> 16) as u8, (i >> 8) as u8, i as u8]
}

const SHORT2: u64 = 1 + 256 + 65536;
const SHORT3: u64 = SHORT2 + (1 << 24);

/// Text payloads around UTF-8 rules, in the middle of strings of many lengths.
fn utf8_case(r: &mut Rng) -> Vec<u8> {
    let seq: Vec<u8> = match r.below(4) {
        0 => r.pick(gen::INVALID_UTF8).to_vec(),
        1 => {
            let lead = *r.pick(&[
                0xc0u8, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4,
                0xf5, 0xf7, 0xf8, 0xff, 0x7f, 0x80, 0xbf,
            ]);
            let mut v = vec![lead];
            for _ in 0..r.below(4) {
                v.push(*r.pick(&[
                    0x00u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff, 0x41,
                ]));
            }
            v
        }
        2 => {
            let mut b = [0u8; 4];
            gen::ch(r).encode_utf8(&mut b).as_bytes().to_vec()
        }
        _ => {
            let n = r.range(1, 4);
            (0..n).map(|_| r.u64() as u8).collect()
        }
    };
    let pre = gen::len(r, 70);
    let post = gen::len(r, 70);
    let mut s = gen::text_n(r, pre).into_bytes();
    s.extend_from_slice(&seq);
    s.extend_from_slice(gen::text_n(r, post).as_bytes());
    let mut o = vec![];
    match r.below(4) {
        0 => {
            // As a map key.
            o.push(0xa1);
            head(&mut o, 3, s.len() as u64);
            o.extend_from_slice(&s);
            o.push(0);
        }
        1 => {
            o.push(0x82);
            head(&mut o, 3, s.len() as u64);
            o.extend_from_slice(&s);
            o.push(0xf6);
        }
        _ => {
            head(&mut o, 3, s.len() as u64);
            o.extend_from_slice(&s);
        }
    }
    o
}

/// A limit to be at the edge of: a default one most of the time. With it the entry points that
/// have it.
fn edge_limit(r: &mut Rng, strict: bool) -> (usize, Vec<usize>) {
    match (r.below(4), strict) {
        (0, true) => (127, vec![1, 3]),
        (0, false) => (127, vec![1]),
        (1, _) => {
            let l = r.below(127);
            (l, vec![1000 + l])
        }
        (_, _) => (64, vec![0, 2]),
    }
}

/// Small inner bytes, good or bad, and the height they would have.
fn inner(r: &mut Rng, strict: bool) -> (Vec<u8>, usize) {
    let mut bud = 12;
    let d = r.range(1, 3);
    match r.below(if strict { 6 } else { 4 }) {
        0 => {
            let s = utf8_case(r);
            let h = (s[0] >= 0x80) as usize;
            (s, h)
        }
        1 => {
            let v = if r.bool() { scalar_of(r) } else { gen::value(r, d, &mut bud) };
            let h = height(&v);
            let mut o = vec![];
            gen::enc_lax(&v, r, &mut o);
            (o, h)
        }
        2 => {
            let v = gen::value(r, d, &mut bud);
            let h = height(&v);
            let mut o = raw(&v);
            gen::mutate(&mut o, r);
            (o, h)
        }
        3 => {
            // Two keys that are nearly equal.
            let mut bud = 10;
            let k1 = gen::key(r, 2, &mut bud);
            let k2 = super::p_order::near(&k1, r);
            let m = M(vec![(k1, U(0)), (k2, U(1))]);
            let h = height(&m);
            (raw(&m), h)
        }
        _ => {
            let v = if r.bool() { scalar_of(r) } else { gen::value(r, d, &mut bud) };
            let v = canon(&v).unwrap_or(NULL);
            let h = height(&v);
            let f = *r.pick(gen::FAULTS);
            (gen::with_fault(&v, f, r).unwrap_or_else(|| raw(&v)), h)
        }
    }
}

fn scalar_of(r: &mut Rng) -> RV {
    gen::scalar(r)
}

pub fn c01(run: &Runner) {
    run.stage_n("short-exhaustive", SHORT2, |c| {
        let b = short(c.idx);
        c.seen(c.idx);
        strict_all(c, &b);
    });
    let o = opts();
    let stride = if o.thorough { 1 } else { 1 };
    run.stage_n("short3-exhaustive", (1 << 24) / 256 / stride, |c| {
        for k in 0..256u64 {
            let b = short(SHORT2 + c.idx * 256 + k);
            if strict_one(c, &b, 0) {
                c.seen_bytes(&b);
            }
        }
    });
    run.stage("canonical", 60_000, 3_000_000, |c| {
        let v = gen::any(&mut c.r);
        let v = match canon(&v) {
            Some(v) => v,
            None => return,
        };
        let b = raw(&v);
        c.seen(shape_hash(&v));
        c.sample(|| hexs(&b));
        strict_all(c, &b);
    });
    run.stage("one-fault", 150_000, 6_000_000, |c| {
        let v = gen::any(&mut c.r);
        let v = match canon(&v) {
            Some(v) => v,
            None => return,
        };
        let f = *c.r.pick(gen::FAULTS);
        if let Some(b) = gen::with_fault(&v, f, &mut c.r) {
            c.count(match f {
                Fault::NonMinimal => "fault_nonminimal",
                Fault::Truncate => "fault_truncate",
                Fault::Trailing => "fault_trailing",
                Fault::BadUtf8 => "fault_utf8",
                Fault::SwapKeys => "fault_swap_keys",
                Fault::DupKey => "fault_dup_key",
                Fault::ReservedAi => "fault_reserved_ai",
                Fault::BadSimple => "fault_simple",
                Fault::Float => "fault_float",
                Fault::Depth => "fault_depth",
            });
            c.seen_bytes(&b);
            c.sample(|| format!("{:?} {}", f, hexs(&b)));
            let api = c.r.below(4);
            strict_one(c, &b, api);
            strict_one(c, &b, 0);
        }
    });
    run.stage("alike", 8_000, 300_000, |c| {
        // One after another: strings that differ in what weak sums over bytes do not see.
        let mut a = match c.r.below(3) {
            0 => gen::input(&mut c.r),
            _ => raw(&gen::any(&mut c.r)),
        };
        a.truncate(300);
        for _ in 0..8 {
            let b = if a.is_empty() { a.clone() } else { gen::alike(&a, &mut c.r) };
            c.seen_bytes(&b);
            strict_all(c, &b);
            if c.r.bool() {
                a = b;
            }
        }
    });
    run.stage("hostile", 150_000, 8_000_000, |c| {
        let b = gen::input(&mut c.r);
        c.seen_bytes(&b);
        let api = c.r.below(4);
        strict_one(c, &b, api);
        strict_one(c, &b, 0);
    });
    run.stage("utf8", 60_000, 3_000_000, |c| {
        let b = utf8_case(&mut c.r);
        c.seen_bytes(&b);
        strict_one(c, &b, 0);
    });
    run.stage("key-pairs", 60_000, 4_000_000, |c| {
        // Two or three adjacent keys that are nearly equal, in both orders.
        let mut bud = 30;
        let k1 = match c.r.below(40) {
            0 => gen::long_string(&mut c.r),
            1 => A(vec![gen::scalar_small(&mut c.r), gen::long_string(&mut c.r)]),
            _ => gen::key(&mut c.r, 3, &mut bud),
        };
        let k2 = super::p_order::near(&k1, &mut c.r);
        let (Some(k1), Some(k2)) = (canon(&k1), canon(&k2)) else {
            return;
        };
        let mut o = vec![0xa2];
        enc_raw(&k1, &mut o);
        o.push(0);
        enc_raw(&k2, &mut o);
        o.push(1);
        c.seen_bytes(&o);
        strict_one(c, &o, 0);
    });
    run.stage("large", 200, 6_000, |c| {
        let v = gen::large(&mut c.r);
        if let Some(v) = canon(&v) {
            let mut b = raw(&v);
            if c.r.one_in(2) && b.len() > 0 {
                // A fault far into a large input.
                let n = b.len();
                match c.r.below(5) {
                    0 => b.truncate(n - 1),
                    1 => b.push(0),
                    2 => {
                        let i = n - 1 - c.r.below(n.min(8));
                        b[i] = c.r.u64() as u8;
                    }
                    3 => {
                        let i = c.r.below(n);
                        b[i] ^= 1 << c.r.below(8);
                    }
                    _ => {
                        if let Some(x) = gen::with_fault(&v, *c.r.pick(gen::FAULTS), &mut c.r) {
                            b = x;
                        }
                    }
                }
            }
            c.seen_bytes(&b);
            strict_one(c, &b, 0);
            strict_one(c, &b, 2);
        }
    });
    run.stage("depth", 20_000, 600_000, |c| {
        let h = c.r.range(55, 140);
        let v = gen::chain(&mut c.r, h);
        if let Some(v) = canon(&v) {
            let b = raw(&v);
            c.seen_bytes(&b);
            strict_all(c, &b);
        }
    });
    run.stage("edge", 60_000, 2_000_000, |c| {
        // A small item, good or bad, where the limit on nesting is just reached.
        let (limit, apis) = edge_limit(&mut c.r, true);
        let (b, h) = inner(&mut c.r, true);
        let k = gen::edge_levels(&mut c.r, limit, h);
        let steps = gen::steps(&mut c.r, k);
        let b = gen::wrap_bytes(&steps, &b);
        c.seen_bytes(&b);
        for api in apis {
            strict_one(c, &b, api);
        }
    });
}

fn lax_one(c: &mut Ctx, b: &[u8], api: usize) -> bool {
    c.eval();
    let (name, limit, got): (&str, i8, Result<Result<Value, String>, String>) = match api {
        0 => (
            "read_nested_non_strict(64)",
            64,
            target(|| read_nested_non_strict(b, Some(64)).map_err(|e| format!("{:?}", e))),
        ),
        1 => (
            "read_nested_non_strict(127)",
            127,
            target(|| read_nested_non_strict(b, Some(127)).map_err(|e| format!("{:?}", e))),
        ),
        2 => (
            "from_slice_non_strict",
            64,
            target(|| cbor::from_slice_non_strict::<Value>(b).map_err(|e| format!("{:?}", e))),
        ),
        n => {
            let l = (n - 1000) as i8;
            (
                "read_nested_non_strict with a given limit",
                l,
                target(|| read_nested_non_strict(b, Some(l)).map_err(|e| format!("{:?}", e))),
            )
        }
    };
    let want = parse_lax(b, Some(limit));
    match (&got, &want) {
        (Ok(Ok(v)), Ok((w, used))) => {
            let w2 = if api == 2 { to_default(w.clone()) } else { w.clone() };
            if !same(v, &w2) {
                c.fail(
                    "lax-value",
                    cut(format!("{} of {} gives {} instead of {}", name, hexs(b), show_v(v), show(&w2))),
                );
            }
            c.count("accepted");
            if *used < b.len() {
                c.count("accepted_with_trailing");
            }
            // Where strict decoding accepts, both agree.
            if parse_strict(b, Some(limit)).is_ok() {
                c.count("also_strict");
                let s = target(|| read_nested(b, Some(limit)));
                match &s {
                    Ok(Ok(v)) if same(v, w) => {}
                    _ => c.fail("lax-vs-strict", cut(format!("{}: strict gives {}", hexs(b), show_r(&s)))),
                }
            }
            true
        }
        (Ok(Err(_)), Err(k)) => {
            c.count(match k {
                Bad::Truncated => "rejected_truncated",
                Bad::Head => "rejected_head",
                Bad::Utf8 => "rejected_utf8",
                Bad::Depth => "rejected_depth",
                _ => "rejected_other",
            });
            false
        }
        (Ok(Ok(v)), Err(k)) => {
            c.fail(
                "lax-accepts-bad",
                cut(format!("{} of {} gives {} although it is malformed ({:?})", name, hexs(b), show_v(v), k)),
            );
            true
        }
        (Ok(Err(e)), Ok((w, _))) => {
            c.fail(
                "lax-rejects-good",
                cut(format!("{} of {} fails with {} although it is well-formed: {}", name, hexs(b), e, show(w))),
            );
            true
        }
        (Err(p), _) => {
            c.fail("lax-panic", cut(format!("{} of {} panics: {}", name, hexs(b), p)));
            true
        }
    }
}

pub fn c08(run: &Runner) {
    run.stage_n("short-exhaustive", SHORT2, |c| {
        let b = short(c.idx);
        c.seen(c.idx);
        for api in 0..3 {
            lax_one(c, &b, api);
        }
    });
    run.stage_n("short3-exhaustive", (1 << 24) / 256, |c| {
        for k in 0..256u64 {
            let b = short(SHORT2 + c.idx * 256 + k);
            // Only the leading item matters; still every string is tried.
            if lax_one(c, &b, 0) && k % 16 == 0 {
                c.seen_bytes(&b);
            }
        }
    });
    let _ = SHORT3;
    run.stage("lax", 120_000, 6_000_000, |c| {
        let v = gen::any(&mut c.r);
        let v = if c.r.one_in(4) {
            // Duplicate keys are kept in non-strict mode.
            dup_some(&v, &mut c.r)
        } else {
            v
        };
        let mut b = vec![];
        gen::enc_lax(&v, &mut c.r, &mut b);
        if c.r.one_in(3) {
            let n = match c.r.below(12) {
                0 => gen::len(&mut c.r, 3000),
                1 => gen::len(&mut c.r, 300),
                _ => c.r.range(1, 6),
            };
            let t = gen::bytes(&mut c.r, n);
            b.extend(t);
        }
        c.seen_bytes(&b);
        c.sample(|| hexs(&b));
        let api = c.r.below(3);
        lax_one(c, &b, api);
        lax_one(c, &b, 0);
    });
    run.stage("simple-and-float", 65_536, 65_536 * 4, |c| {
        // Every 16-bit float, every one-byte simple value, and 32/64-bit floats with the same
        // small bit patterns.
        let n = c.idx % 65536;
        let mut forms: Vec<Vec<u8>> = vec![];
        for w in [2usize, 4, 8] {
            let mut o = vec![];
            head_w(&mut o, 7, n, w);
            forms.push(o.clone());
            let mut o = vec![0x81];
            head_w(&mut o, 7, n, w);
            forms.push(o);
        }
        if n < 256 {
            let mut o = vec![];
            head_w(&mut o, 7, n, 1);
            forms.push(o.clone());
            o.insert(0, 0x81);
            forms.push(o);
        }
        let x = c.r.u64();
        let mut o = vec![];
        head_w(&mut o, 7, x & 0xffff_ffff, 4);
        forms.push(o);
        let mut o = vec![];
        head_w(&mut o, 7, x, 8);
        forms.push(o);
        c.seen(c.idx);
        for f in forms {
            lax_one(c, &f, 0);
        }
    });
    run.stage("alike", 8_000, 300_000, |c| {
        // One after another: strings that differ in what weak sums over bytes do not see.
        let mut a = match c.r.below(3) {
            0 => gen::input(&mut c.r),
            _ => raw(&gen::any(&mut c.r)),
        };
        a.truncate(300);
        for _ in 0..8 {
            let b = if a.is_empty() { a.clone() } else { gen::alike(&a, &mut c.r) };
            c.seen_bytes(&b);
            let api = c.r.below(3);
            lax_one(c, &b, api);
            lax_one(c, &b, 0);
            if c.r.bool() {
                a = b;
            }
        }
    });
    run.stage("hostile", 150_000, 8_000_000, |c| {
        let b = gen::input(&mut c.r);
        c.seen_bytes(&b);
        let api = c.r.below(3);
        lax_one(c, &b, api);
        lax_one(c, &b, 0);
    });
    run.stage("utf8", 40_000, 2_000_000, |c| {
        let b = utf8_case(&mut c.r);
        c.seen_bytes(&b);
        lax_one(c, &b, 0);
    });
    run.stage("large", 150, 5_000, |c| {
        let v = gen::large(&mut c.r);
        let mut b = raw(&v);
        match c.r.below(4) {
            0 => b.push(0xff),
            1 => {
                let n = b.len();
                b.truncate(n - 1)
            }
            _ => {}
        }
        c.seen_bytes(&b);
        lax_one(c, &b, 0);
    });
    run.stage("trailing", 600, 20_000, |c| {
        // An item of any size, followed by anything of any size.
        let v = if c.r.one_in(10) { gen::large(&mut c.r) } else { gen::any(&mut c.r) };
        let mut b = vec![];
        gen::enc_lax(&v, &mut c.r, &mut b);
        match c.r.below(4) {
            0 => {
                let again = b.clone();
                let n = c.r.range(1, 40);
                for _ in 0..n {
                    b.extend_from_slice(&again);
                    if b.len() > 3_000_000 {
                        break;
                    }
                }
            }
            1 => {
                let n = gen::big_len(&mut c.r);
                let x = *c.r.pick(&[0u8, 0xff, 0x80, 0xa0, 0xf6, 0x5f, 0x9f, 0xc0, 0x61, 0x1b]);
                b.resize(b.len() + n, x);
            }
            2 => {
                let n = gen::len(&mut c.r, 5000);
                let t = gen::bytes(&mut c.r, n);
                b.extend(t);
            }
            _ => {
                let n = gen::big_len(&mut c.r);
                let t = gen::bytes(&mut c.r, n);
                b.extend(t);
            }
        }
        c.seen_bytes(&b);
        for api in 0..3 {
            lax_one(c, &b, api);
        }
    });
    run.stage("depth", 15_000, 500_000, |c| {
        let h = c.r.range(55, 140);
        let v = gen::chain(&mut c.r, h);
        let mut b = vec![];
        gen::enc_lax(&v, &mut c.r, &mut b);
        c.seen_bytes(&b);
        for api in 0..3 {
            lax_one(c, &b, api);
        }
    });
    run.stage("edge", 50_000, 2_000_000, |c| {
        let (limit, apis) = edge_limit(&mut c.r, false);
        let (b, h) = inner(&mut c.r, false);
        let k = gen::edge_levels(&mut c.r, limit, h);
        let steps = gen::steps(&mut c.r, k);
        let mut b = gen::wrap_bytes(&steps, &b);
        if c.r.one_in(8) {
            let n = c.r.range(1, 6);
            let t = gen::bytes(&mut c.r, n);
            b.extend(t);
        }
        c.seen_bytes(&b);
        for api in apis {
            lax_one(c, &b, api);
        }
    });
}

/// Repeat entries in some maps.
pub fn dup_some(v: &RV, r: &mut Rng) -> RV {
    match v {
        A(a) => A(a.iter().map(|x| dup_some(x, r)).collect()),
        M(m) => {
            let mut m: Vec<(RV, RV)> = m.iter().map(|(k, x)| (k.clone(), dup_some(x, r))).collect();
            if !m.is_empty() && r.bool() {
                let i = r.below(m.len());
                let mut e = m[i].clone();
                if r.bool() {
                    e.1 = gen::scalar_small(r);
                }
                let at = r.below(m.len() + 1);
                m.insert(at, e);
            }
            M(m)
        }
        G(t, x) => G(*t, Box::new(dup_some(x, r))),
        x => x.clone(),
    }
}

/// Any call, judged by the models, small and large, good and bad, with any limit.
pub fn any_call(c: &mut Ctx) {
    let api = |c: &mut Ctx| match c.r.below(3) {
        0 => 1000 + c.r.below(128),
        _ => c.r.below(3),
    };
    match c.r.below(12) {
        0 | 1 => {
            let b = gen::input(&mut c.r);
            let a = api(c);
            strict_one(c, &b, a);
        }
        2 | 3 => {
            let v = gen::any(&mut c.r);
            let f = *c.r.pick(gen::FAULTS);
            let b = gen::with_fault(&v, f, &mut c.r).unwrap_or_else(|| raw(&v));
            let a = api(c);
            if c.r.bool() {
                strict_one(c, &b, a);
            } else {
                lax_one(c, &b, a);
            }
        }
        4 => {
            // Some kilobytes.
            let n = *c.r.pick(&[900usize, 2000, 4090, 4097, 5000, 9000, 20_000]) + c.r.below(9);
            let v = match c.r.below(3) {
                0 => B(gen::bytes(&mut c.r, n)),
                1 => T(gen::text_n(&mut c.r, n)),
                _ => A((0..n / 2).map(|_| gen::scalar_small(&mut c.r)).collect()),
            };
            let b = raw(&v);
            let a = api(c);
            match c.r.below(4) {
                0 => drop(lax_one(c, &b, a)),
                1 => super::p_write::check_round(c, &v),
                _ => drop(strict_one(c, &b, a)),
            }
        }
        5 | 6 | 7 => {
            let style = c.r.below(9);
            let h = match c.r.below(3) {
                0 => c.r.below(8),
                1 => c.r.range(60, 131),
                _ => c.r.below(300),
            };
            if let Some(v) = canon(&deep(&mut c.r, h, style)) {
                let b = raw(&v);
                let limit = match c.r.below(6) {
                    0 | 1 => None,
                    2 => Some(64),
                    3 => Some(127),
                    4 => Some((h as i64 + c.r.below(5) as i64 - 2).clamp(-128, 127) as i8),
                    _ => Some(c.r.u64() as i8),
                };
                check_limit(c, &v, &b, limit, limit.map_or(true, |l| h as i64 <= l as i64), h);
                if c.r.one_in(3) {
                    let h = height(&v);
                    fixed(c, &v, &b, h);
                }
            }
            // Within the limits of all entry points, but not by far.
            let h = c.r.range(17, 65);
            if let Some(v) = canon(&deep(&mut c.r, h, style)) {
                let b = raw(&v);
                let h = height(&v);
                fixed(c, &v, &b, h);
                strict_one(c, &b, 2);
                lax_one(c, &b, 2);
            }
        }
        8 => {
            let v = gen::any(&mut c.r);
            let v = scramble(&v, &mut c.r);
            super::p_write::check_canonical(c, &v);
        }
        9 => {
            let v = gen::any(&mut c.r);
            let v = scramble(&dup_some(&v, &mut c.r), &mut c.r);
            super::p_write::check_canonical(c, &v);
        }
        10 => {
            let v = gen::any(&mut c.r);
            super::p_write::check_round(c, &v);
        }
        _ => {
            let v = gen::any(&mut c.r);
            let mut b = vec![];
            gen::enc_lax(&v, &mut c.r, &mut b);
            let a = api(c);
            lax_one(c, &b, a);
        }
    }
}

// -- C05 ---------------------------------------------------------------------------------------

/// A value of exactly height h whose deep part sits in a place that depends on `style`.
fn deep(r: &mut Rng, h: usize, style: usize) -> RV {
    let mut v = match r.below(4) {
        0 => A(vec![]),
        1 => M(vec![]),
        2 => T("x".into()),
        _ => U(5),
    };
    for i in 0..h {
        let s = if style == 8 { r.below(8) } else { style };
        v = match s {
            0 => A(vec![v]),
            1 => M(vec![(U(0), v)]),
            2 => M(vec![(v, U(0))]),
            3 => G(i as u64, Box::new(v)),
            4 => A(vec![U(1), A(vec![]), v]),
            5 => A(vec![v, U(1)]),
            6 => M(vec![(U(0), U(0)), (T("k".into()), v)]),
            _ => M(vec![(U(0), U(0)), (v, U(0))]),
        };
    }
    v
}

pub fn c05(run: &Runner) {
    // Every limit of i8 against every height up to 131, through the reader (both modes) and the
    // writer, for every style of nesting.
    run.stage_n("limits", 256 * 9, |c| {
        let limit = (c.idx % 256) as u8 as i8;
        let style = (c.idx / 256) as usize;
        for h in 0..=131usize {
            // Far from the limit, sample only some heights.
            let d = h as i64 - limit as i64;
            if d.abs() > 3 && h > 3 && h < 124 && !opts().thorough && (h + style) % 8 != 0 {
                continue;
            }
            let v = deep(&mut c.r, h, style);
            let v = match canon(&v) {
                Some(v) => v,
                None => continue,
            };
            let b = raw(&v);
            let ok = h as i64 <= limit as i64;
            c.seen(hash_bytes(&b) ^ limit as u64);
            check_limit(c, &v, &b, Some(limit), ok, h);
            c.sample(|| format!("limit {} height {} style {} {}", limit, h, style, hexs(&b)));
        }
    });
    run.stage_n("unlimited", 9 * 60, |c| {
        let style = (c.idx % 9) as usize;
        let h = match c.idx / 9 {
            0..=4 => (c.idx / 9) as usize,
            x => 60 + (x as usize) * 12,
        };
        let v = deep(&mut c.r, h, style);
        if let Some(v) = canon(&v) {
            let b = raw(&v);
            c.seen_bytes(&b);
            check_limit(c, &v, &b, None, true, h);
        }
    });
    // The fixed limits: 64 for from_slice and friends, 127 for read/write.
    run.stage_n("fixed", 9 * 140, |c| {
        let style = (c.idx % 9) as usize;
        let h = (c.idx / 9) as usize;
        let v = deep(&mut c.r, h, style);
        let Some(v) = canon(&v) else { return };
        let b = raw(&v);
        c.seen_bytes(&b);
        fixed(c, &v, &b, h);
    });
    run.stage("wide", 20_000, 400_000, |c| {
        // Trees with one deep branch among shallow ones, at a random place.
        let h = match c.r.below(4) {
            0 => c.r.range(60, 68),
            1 => c.r.range(124, 131),
            _ => c.r.below(30),
        };
        let style = c.r.below(9);
        let mut v = deep(&mut c.r, h, style);
        let mut hh = h;
        for _ in 0..c.r.below(4) {
            let n = c.r.range(1, 5);
            let at = c.r.below(n);
            let kind = c.r.below(3);
            let mut inner = Some(v);
            let items: Vec<RV> = (0..n)
                .map(|i| {
                    if i == at {
                        inner.take().unwrap()
                    } else {
                        let mut b = 6;
                        gen::value(&mut c.r, 2, &mut b)
                    }
                })
                .collect();
            v = match kind {
                0 => A(items),
                1 => M(items.into_iter().enumerate().map(|(i, x)| (U(i as u64), x)).collect()),
                _ => G(3, Box::new(A(items))),
            };
            hh = height(&v);
        }
        let Some(v) = canon(&v) else { return };
        let b = raw(&v);
        c.seen_bytes(&b);
        let lim = (hh as i64 + c.r.below(5) as i64 - 2).clamp(-2, 127) as i8;
        check_limit(c, &v, &b, Some(lim), hh as i64 <= lim as i64, hh);
        fixed(c, &v, &b, hh);
    });
}

fn fixed(c: &mut Ctx, v: &RV, b: &[u8], h: usize) {
    c.evals(8);
    let r64 = h <= 64;
    let r127 = h <= 127;
    macro_rules! expect {
        ($name:expr, $ok:expr, $res:expr) => {{
            match $res {
                Ok(got) => {
                    if got != $ok {
                        c.fail(
                            "nest-fixed",
                            cut(format!("{} {} an item of height {}: {}", $name, if got { "accepts" } else { "refuses" }, h, hexs(b))),
                        );
                    }
                    c.count(if got { "fixed_within" } else { "fixed_beyond" });
                }
                Err(p) => c.fail("nest-panic", cut(format!("{} panics at height {}: {}", $name, h, p))),
            }
        }};
    }
    expect!("from_slice", r64, target(|| cbor::from_slice::<Value>(b).is_ok()));
    expect!("from_slice_non_strict", r64, target(|| cbor::from_slice_non_strict::<Value>(b).is_ok()));
    // For serde, a type that accepts anything.
    expect!("serde::from_slice", r64 , {
        // Tags are refused by the serde deserializer whatever the depth.
        let tag = has_tag(v);
        if tag {
            target(|| match cbor::serde::from_slice::<serde::de::IgnoredAny>(b) {
                Ok(_) => r64,
                Err(cbor::serde::Error::ByteDecoder(DecoderError::TooMuchNesting)) => false,
                Err(_) => r64,
            })
        } else {
            target(|| cbor::serde::from_slice::<serde::de::IgnoredAny>(b).is_ok())
        }
    });
    expect!("read", r127, target(|| cbor::read(b).is_ok()));
    let tv = to_value(v);
    let tv2 = tv.clone();
    expect!("write", r127, target(move || {
        let mut o = vec![];
        write(tv, &mut o).is_ok()
    }));
    if r127 {
        match target(|| cbor::to_vec(tv2)) {
            Ok(o) if o == b => {}
            x => c.fail("nest-to_vec", cut(format!("to_vec at height {} gives {:?}", h, x.map(|o| hexs(&o))))),
        }
    } else {
        match target(|| {
            let mut o = vec![];
            write(tv2, &mut o)
        }) {
            Ok(Err(EncoderError::TooMuchNesting)) => {}
            x => c.fail("nest-write-kind", cut(format!("write at height {} gives {:?}", h, x))),
        }
    }
}

fn has_tag(v: &RV) -> bool {
    match v {
        A(a) => a.iter().any(has_tag),
        M(m) => m.iter().any(|(k, x)| has_tag(k) || has_tag(x)),
        G(..) => true,
        _ => false,
    }
}

fn check_limit(c: &mut Ctx, v: &RV, b: &[u8], limit: Option<i8>, ok: bool, h: usize) {
    c.evals(3);
    for strict in [true, false] {
        let got = target(|| {
            if strict {
                read_nested(b, limit)
            } else {
                read_nested_non_strict(b, limit)
            }
        });
        let fine = match &got {
            Ok(Ok(x)) => ok && same(x, v),
            Ok(Err(DecoderError::TooMuchNesting)) => !ok,
            _ => false,
        };
        c.count(if ok { "read_within" } else { "read_beyond" });
        if !fine {
            c.fail(
                "nest-read",
                cut(format!("reading (strict={}) height {} with limit {:?}: {} for {}", strict, h, limit, show_r(&got), hexs(b))),
            );
        }
    }
    let tv = to_value(v);
    let got = target(|| {
        let mut o = vec![];
        write_nested(tv, &mut o, limit).map(|_| o)
    });
    let fine = match &got {
        Ok(Ok(o)) => ok && o == b,
        Ok(Err(EncoderError::TooMuchNesting)) => !ok,
        _ => false,
    };
    c.count(if ok { "write_within" } else { "write_beyond" });
    if !fine {
        c.fail(
            "nest-write",
            cut(format!("writing height {} with limit {:?}: {:?} for {}", h, limit, got.map(|x| x.map(|o| hexs(&o))), hexs(b))),
        );
    }
}

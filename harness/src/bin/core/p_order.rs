//! C04: the ordering of values.
use super::*;

/// A value close to v: one leaf changed, an element added, removed or swapped, or v itself.
pub fn near(v: &RV, r: &mut Rng) -> RV {
    match v {
        U(n) => match r.below(5) {
            0 => U(n.wrapping_add(1)),
            1 => U(n.wrapping_sub(1)),
            2 => N(*n),
            3 => U(n ^ (1 << r.below(64))),
            _ => U(*n),
        },
        N(n) => match r.below(5) {
            0 => N(n.wrapping_add(1)),
            1 => N(n.wrapping_sub(1)),
            2 => U(*n),
            3 => N(n ^ (1 << r.below(64))),
            _ => N(*n),
        },
        B(b) => {
            let mut b = b.clone();
            match r.below(6) {
                5 if b.len() > 1 => {
                    // Two bytes, often close to each other.
                    let i = r.below(b.len());
                    let j = if r.bool() { i ^ 1 } else { i ^ (1 + r.below(15)) }.min(b.len() - 1);
                    b[i] = b[i].wrapping_add(1);
                    b[j] = b[j].wrapping_sub(1);
                }
                0 => b.push(r.u64() as u8),
                1 => {
                    b.pop();
                }
                2 if !b.is_empty() => {
                    let i = r.below(b.len());
                    b[i] = b[i].wrapping_add(1);
                }
                3 => b.insert(0, 0),
                _ => {}
            }
            B(b)
        }
        T(s) => {
            let mut cs: Vec<char> = s.chars().collect();
            match r.below(6) {
                0 => cs.push(gen::ch(r)),
                1 => {
                    cs.pop();
                }
                2 if !cs.is_empty() => {
                    let i = r.below(cs.len());
                    cs[i] = gen::ch(r);
                }
                3 if !cs.is_empty() => {
                    // Same number of bytes.
                    let i = r.below(cs.len());
                    if cs[i].is_ascii() {
                        cs[i] = (((cs[i] as u8) + 1) & 0x7f) as char;
                    }
                    let j = (i ^ (1 + r.below(8))).min(cs.len() - 1);
                    if r.bool() && i != j && cs[j].is_ascii() {
                        cs[j] = ((cs[j] as u8).wrapping_sub(1) & 0x7f) as char;
                    }
                }
                4 => return B(s.as_bytes().to_vec()),
                _ => {}
            }
            T(cs.into_iter().collect())
        }
        A(a) => {
            let mut a = a.clone();
            match r.below(6) {
                0 => a.push(gen::scalar_small(r)),
                1 => {
                    a.pop();
                }
                2 | 3 if !a.is_empty() => {
                    let i = r.below(a.len());
                    a[i] = near(&a[i].clone(), r);
                }
                4 if a.len() > 1 => {
                    let i = r.below(a.len());
                    let j = r.below(a.len());
                    a.swap(i, j);
                }
                _ => {}
            }
            A(a)
        }
        M(m) => {
            let mut m = m.clone();
            match r.below(6) {
                0 => m.push((gen::scalar_small(r), U(0))),
                1 => {
                    m.pop();
                }
                2 if !m.is_empty() => {
                    let i = r.below(m.len());
                    m[i].1 = near(&m[i].1.clone(), r);
                }
                3 if !m.is_empty() => {
                    let i = r.below(m.len());
                    m[i].0 = near(&m[i].0.clone(), r);
                }
                4 if m.len() > 1 => {
                    let i = r.below(m.len());
                    let j = r.below(m.len());
                    m.swap(i, j);
                }
                _ => {}
            }
            M(m)
        }
        G(t, x) => match r.below(4) {
            0 => G(t.wrapping_add(1), x.clone()),
            1 => G(t ^ (1 << r.below(64)), x.clone()),
            2 => G(*t, Box::new(near(x, r))),
            _ => v.clone(),
        },
        S(s) => S(20 + (s - 20 + r.below(4) as u8) % 4),
    }
}

/// Values for ordering tests; mostly related to each other.
fn family(r: &mut Rng, n: usize) -> Vec<RV> {
    let first = match r.below(5) {
        0 if r.one_in(20) => gen::long_string(r),
        0 => gen::scalar(r),
        1 => {
            let mut b = 20;
            gen::key(r, 3, &mut b)
        }
        2 => {
            let n = gen::len(r, 40);
            A((0..n).map(|_| gen::scalar_small(r)).collect())
        }
        _ => {
            let mut b = 16;
            gen::value(r, 3, &mut b)
        }
    };
    let mut v = vec![first];
    while v.len() < n {
        let i = r.below(v.len());
        let x = if r.one_in(5) {
            let mut b = 8;
            gen::value(r, 2, &mut b)
        } else {
            near(&v[i].clone(), r)
        };
        v.push(x);
    }
    v
}

fn pair_checks(c: &mut Ctx, a: &Value, b: &Value, oa: &RV, ob: &RV, want: Option<Ordering>) {
    c.eval();
    let r = target(|| {
        (
            a.cmp(b),
            b.cmp(a),
            a.partial_cmp(b),
            a == b,
            b == a,
            a != b,
            a < b,
            a <= b,
            a > b,
            a >= b,
        )
    });
    match r {
        Err(p) => c.fail("order-panic", cut(format!("comparing {} and {} panics: {}", show(oa), show(ob), p))),
        Ok((ab, ba, pc, eq, eq2, ne, lt, le, gt, ge)) => {
            let ok = ab == ba.reverse()
                && pc == Some(ab)
                && eq == (ab == Ordering::Equal)
                && eq2 == eq
                && ne != eq
                && lt == (ab == Ordering::Less)
                && gt == (ab == Ordering::Greater)
                && le == (ab != Ordering::Greater)
                && ge == (ab != Ordering::Less);
            if !ok {
                c.fail(
                    "order-inconsistent",
                    cut(format!("{} vs {}: cmp {:?}, reverse {:?}, partial {:?}, eq {}/{}, ne {}, lt {}, le {}, gt {}, ge {}", show(oa), show(ob), ab, ba, pc, eq, eq2, ne, lt, le, gt, ge)),
                );
            }
            // Equality is identity of the denoted value (same structure, same entry order).
            if eq != (oa == ob) {
                c.fail("order-eq", cut(format!("{} == {} is {}", show(oa), show(ob), eq)));
            }
            if let Some(w) = want {
                c.count(match w {
                    Ordering::Less => "less",
                    Ordering::Equal => "equal",
                    Ordering::Greater => "greater",
                });
                if ab != w {
                    c.fail(
                        "order-bytes",
                        cut(format!("{} cmp {} is {:?} but the encodings compare {:?}", show(oa), show(ob), ab, w)),
                    );
                }
            }
        }
    }
}

pub fn c04(run: &Runner) {
    // Against the bytewise order of the encodings, maps held in canonical order.
    run.stage("pairs", 250_000, 12_000_000, |c| {
        let fam = family(&mut c.r, 3);
        let cs: Vec<RV> = fam.iter().filter_map(canon).collect();
        let vs: Vec<(RV, Value, Vec<u8>)> = cs
            .into_iter()
            .map(|x| {
                let b = raw(&x);
                let v = to_value(&x);
                (x, v, b)
            })
            .collect();
        for i in 0..vs.len() {
            for j in i..vs.len() {
                let w = vs[i].2.cmp(&vs[j].2);
                c.seen(hash_bytes(&vs[i].2) ^ hash_bytes(&vs[j].2).rotate_left(7));
                pair_checks(c, &vs[i].1, &vs[j].1, &vs[i].0, &vs[j].0, Some(w));
            }
        }
        c.sample(|| vs.iter().map(|x| hexs(&x.2)).collect::<Vec<_>>().join(" , "));
    });
    // The same many levels deep, in the same surroundings.
    run.stage("deep", 30_000, 1_000_000, |c| {
        let fam = family(&mut c.r, 3);
        let k = match c.r.below(4) {
            0 => c.r.range(1, 30),
            1 => c.r.range(100, 300),
            _ => c.r.range(1, 130),
        };
        let steps = gen::steps(&mut c.r, k);
        let vs: Vec<(RV, Value, Vec<u8>)> = fam
            .iter()
            .filter_map(canon)
            .map(|x| {
                let x = gen::wrap_value(&steps, x);
                let b = raw(&x);
                let v = to_value(&x);
                (x, v, b)
            })
            .collect();
        for i in 0..vs.len() {
            for j in i..vs.len() {
                let w = vs[i].2.cmp(&vs[j].2);
                c.seen(hash_bytes(&vs[i].2) ^ hash_bytes(&vs[j].2).rotate_left(7));
                pair_checks(c, &vs[i].1, &vs[j].1, &vs[i].0, &vs[j].0, Some(w));
            }
        }
    });
    // A fixed lattice of boundary values, all pairs.
    let mut lat: Vec<RV> = vec![];
    for e in gen::EDGES {
        lat.push(U(*e));
        lat.push(N(*e));
        lat.push(G(*e, Box::new(U(0))));
        if *e <= 300 {
            lat.push(B(vec![0; *e as usize]));
            lat.push(T("a".repeat(*e as usize)));
            lat.push(A(vec![U(0); *e as usize]));
            lat.push(M((0..*e).map(|i| (U(i), U(0))).collect()));
        }
    }
    for s in 20..24 {
        lat.push(S(s));
        lat.push(A(vec![S(s)]));
    }
    for x in [
        B(vec![0xff]),
        B(vec![0]),
        B(vec![1, 0]),
        T("b".into()),
        T("\u{7f}".into()),
        T("\u{80}".into()),
        T("\u{ffff}".into()),
        T("\u{10000}".into()),
        T("é".into()),
        A(vec![A(vec![])]),
        A(vec![M(vec![])]),
        M(vec![(U(0), U(1))]),
        M(vec![(U(1), U(0))]),
        M(vec![(T("a".into()), U(0))]),
        M(vec![(M(vec![]), U(0))]),
        G(1, Box::new(G(0, Box::new(U(1))))),
        G(1, Box::new(T("s".into()))),
    ] {
        lat.push(x);
    }
    let lv: Vec<(Value, Vec<u8>)> = lat.iter().map(|x| (to_value(x), raw(x))).collect();
    let n = lat.len() as u64;
    run.stage_n("lattice", n, |c| {
        let i = c.idx as usize;
        for j in 0..lat.len() {
            let w = lv[i].1.cmp(&lv[j].1);
            c.seen(c.idx * 100_000 + j as u64);
            pair_checks(c, &lv[i].0, &lv[j].0, &lat[i], &lat[j], Some(w));
        }
    });
    // Axioms for values held in any map order, negative integers outside the CBOR range included.
    run.stage("axioms", 120_000, 6_000_000, |c| {
        let fam = family(&mut c.r, 4);
        let fam: Vec<RV> = fam.iter().map(|x| scramble(x, &mut c.r)).collect();
        let vs: Vec<Value> = fam.iter().map(to_value).collect();
        for i in 0..vs.len() {
            for j in 0..vs.len() {
                pair_checks(c, &vs[i], &vs[j], &fam[i], &fam[j], None);
                for k in 0..vs.len() {
                    c.eval();
                    let r = target(|| (vs[i].cmp(&vs[j]), vs[j].cmp(&vs[k]), vs[i].cmp(&vs[k])));
                    if let Ok((a, b, d)) = r {
                        let bad = (a != Ordering::Greater && b != Ordering::Greater && d == Ordering::Greater)
                            || (a == Ordering::Less && b != Ordering::Greater && d != Ordering::Less)
                            || (a == Ordering::Equal && d != b);
                        if bad {
                            c.fail(
                                "order-transitive",
                                cut(format!("{} {:?} {} {:?} {} but {:?}", show(&fam[i]), a, show(&fam[j]), b, show(&fam[k]), d)),
                            );
                        }
                    }
                }
            }
        }
        c.seen(fam.iter().fold(0, |h, x| h ^ hash_bytes(&raw(x)).rotate_left(3)));
        // Negative integers of any size still have a consistent order.
        let a = Value::Negative(-(c.r.u64() as i128) * (1 + c.r.below(1000) as i128));
        let b = Value::Negative((c.r.u64() as i128) * (c.r.below(5) as i128 - 2));
        let r = target(|| (a.cmp(&b), b.cmp(&a), a == b, a.cmp(&a)));
        match r {
            Ok((x, y, e, s)) if x == y.reverse() && e == (x == Ordering::Equal) && s == Ordering::Equal => {}
            x => c.fail("order-inconsistent", cut(format!("{:?} vs {:?}: {:?}", a, b, x))),
        }
    });
    // Sorting with it gives the order of the encodings.
    run.stage("sorting", 20_000, 800_000, |c| {
        let n = c.r.range(2, 40);
        let fam = family(&mut c.r, n);
        let cs: Vec<RV> = fam.iter().filter_map(canon).collect();
        let mut vs: Vec<Value> = cs.iter().map(to_value).collect();
        let mut want: Vec<Vec<u8>> = cs.iter().map(raw).collect();
        want.sort();
        c.eval();
        c.seen(want.iter().fold(0, |h, x| h ^ hash_bytes(x).rotate_left(3)));
        let use_set = c.r.bool();
        let r = target(|| {
            if use_set {
                let s: std::collections::BTreeSet<Value> = vs.drain(..).collect();
                s.into_iter().collect::<Vec<_>>()
            } else {
                vs.sort();
                std::mem::take(&mut vs)
            }
        });
        if use_set {
            want.dedup();
        }
        match r {
            Ok(s) => {
                let got: Vec<Vec<u8>> = s.iter().map(|v| from_value(v).map(|x| raw(&x)).unwrap_or_default()).collect();
                if got != want {
                    c.fail("order-sort", cut(format!("sorted: {:?}", got.iter().map(|x| hexs(x)).collect::<Vec<_>>())));
                }
            }
            Err(p) => c.fail("order-panic", p),
        }
    });
    run.stage("large", 60, 2_000, |c| {
        let v = gen::large(&mut c.r);
        let Some(v) = canon(&v) else { return };
        // Differ in the last place only.
        let w = match &v {
            B(b) => {
                let mut b = b.clone();
                let n = b.len();
                b[n - 1] ^= 1;
                B(b)
            }
            T(s) => {
                let mut s: Vec<u8> = s.clone().into_bytes();
                let n = s.len();
                if s[n - 1] < 0x80 {
                    s[n - 1] = if s[n - 1] == b'q' { b'r' } else { b'q' };
                }
                T(String::from_utf8(s).unwrap())
            }
            A(a) => {
                let mut a = a.clone();
                let n = a.len();
                a[n - 1] = near(&a[n - 1].clone(), &mut c.r);
                A(a)
            }
            M(m) => {
                let mut m = m.clone();
                let n = m.len();
                m[n - 1].1 = U(1);
                M(m)
            }
            x => x.clone(),
        };
        let Some(w) = canon(&w) else { return };
        // Or of another length, with the longer one first in any other respect.
        let n = c.r.below(40);
        let k = 1 + c.r.below(3);
        let shorter = |n: usize, r: &mut Rng| match &v {
            B(_) => B(vec![*r.pick(&[0u8, 0x7f, 0xff]); n]),
            T(_) => T("\u{7f}".repeat(n)),
            A(_) => A(vec![r.pick(&[U(0), NULL]).clone(); n]),
            M(m) => M(m.iter().rev().take(n).cloned().collect()),
            x => x.clone(),
        };
        let len = match &v {
            B(b) => b.len(),
            T(t) => t.len(),
            A(a) => a.len(),
            M(m) => m.len(),
            _ => 0,
        };
        let others = [
            w,
            shorter(n.min(len), &mut c.r),
            shorter(len - k.min(len), &mut c.r),
            shorter(len & 0xff, &mut c.r),
            shorter(len & 0xffff, &mut c.r),
            shorter((len & 0xffff) + 1, &mut c.r),
        ];
        let bv = raw(&v);
        c.seen(hash_bytes(&bv));
        let tv = to_value(&v);
        for w in others {
            let Some(w) = canon(&w) else { continue };
            let want = bv.cmp(&raw(&w));
            pair_checks(c, &tv, &to_value(&w), &v, &w, Some(want));
        }
    });
    let _ = SimpleValue::NullValue;
}

//! Checks of the serde bridge: C18, C19, C20 and the bridge's part of C06, C12 and C23.
use oasis_cbor as cbor;
use oasis_cbor::Value;
use vharness::gen::{self, FAULTS};
use vharness::model::*;
use vharness::rng::{hash_bytes, Rng};
use vharness::run::*;
use vtyped::dv::*;
use vtyped::gen as tgen;
use vtyped::mutate;
use vtyped::refm::{enc, enc_notes, set_defs, Note};

use vbridge::rec::{self, At, Plan};
use vbridge::sdec;
use vbridge::sv::{self, Sv};
use vbridge::{expect_sv, kind, record, sroot, Bs, In, Kind, SRoot};

mod zoo {
    #![allow(unused_imports)]
    include!(env!("VSZOO"));
}

fn cut(s: String) -> String {
    if s.len() > 700 {
        s.chars().take(700).collect::<String>() + ".."
    } else {
        s
    }
}

fn main() {
    let o = parse_args();
    set_defs(zoo::defs());
    let roots = zoo::roots();
    let run = Runner::new();
    run.stage_n("serde-types", 1, |c| {
        c.eval();
        c.add("types.derived", vtyped::refm::defs().len() as u64);
        c.add("types.roots", roots.len() as u64);
        for (k, n) in zoo::FEATURES {
            c.add(&format!("types.with.{}", k), *n);
        }
    });
    match o.prop.as_str() {
        "C06" => c06(&run, &roots),
        "C12" => c12(&run, &roots),
        "C18" => c18(&run, &roots),
        "C19" => c19(&run, &roots),
        "C20" => c20(&run, &roots),
        "C23" => c23(&run, &roots),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(3);
        }
    }
    run.finish();
}

// -- C18 ---------------------------------------------------------------------------------------

/// Everything a dynamic value of the data model promises about a round trip.
fn trip(c: &mut Ctx, s: &Sv) {
    c.evals(5);
    let w = sv::wire(s);
    let val = target(|| cbor::serde::to_value(s).map_err(kind));
    let vec = target(|| cbor::serde::to_vec(s).map_err(kind));
    let w = match w {
        Some(w) => w,
        None => {
            c.count("unrepresentable");
            for (n, bad) in [("to_value", !matches!(val, Ok(Err(_)))), ("to_vec", !matches!(vec, Ok(Err(_))))] {
                if bad {
                    c.fail("unrepresentable", cut(format!("{} of {:?} is no error: {:?} / {:?}", n, s, val, vec)));
                }
            }
            return;
        }
    };
    let h = height(&w);
    let canonical = canon(&w);
    let got = match &val {
        Ok(Ok(v)) => from_value(v),
        _ => None,
    };
    // Repeated keys may be refused early.
    if canonical.is_some() || matches!(val, Err(_)) {
        if got.as_ref().and_then(canon) != canonical || got.is_none() {
            c.fail("to-value", cut(format!("{:?} gives {:?} instead of {}", s, val, show(&w))));
        }
    }
    let want = canonical.as_ref().filter(|_| h <= 127).map(raw);
    match (&vec, &want) {
        (Ok(Ok(b)), Some(x)) if b == x => {
            c.seen_bytes(b);
            c.digest(b);
        }
        (Ok(Err(_)), None) => c.count(if h > 127 { "too_deep" } else { "duplicates" }),
        _ => c.fail("to-vec", cut(format!("{:?} gives {:?} instead of {:?}", s, vec.map(|r| r.map(|b| hexs(&b))), want.map(|b| hexs(&b))))),
    }
    let canonical = match canonical {
        Some(v) => v,
        None => return,
    };
    c.add("nodes", nodes(&w) as u64);
    let n = sv::norm(s);
    let back = expect_sv(s, In::Val(to_value(&canonical)));
    if back != Ok(Ok(n.clone())) {
        c.fail("from-value", cut(format!("{:?} comes back as {:?} from {}", s, back, show(&canonical))));
    }
    let b = raw(&canonical);
    let back = expect_sv(s, In::Slice(&b));
    if h <= 64 {
        if back != Ok(Ok(n)) {
            c.fail("from-slice", cut(format!("{:?} comes back as {:?} from {}", s, back, hexs(&b))));
        }
    } else {
        c.count("deeper_than_64");
        if back != Ok(Err(Kind::Decoder("TooMuchNesting".into()))) {
            c.fail("from-slice-depth", cut(format!("{} nests {} levels: {:?}", hexs(&b), h, back)));
        }
    }
}

fn c18(run: &Runner, roots: &[SRoot]) {
    run.stage("data-model", 60_000, 2_000_000, |c| {
        let s = sv::any(&mut c.r);
        c.sample(|| cut(format!("{:?}", s)));
        trip(c, &s);
    });
    run.stage("data-model-scalars", 40_000, 1_000_000, |c| {
        let s = sv::scalar(&mut c.r);
        trip(c, &s);
    });
    run.stage("data-model-wide", 300, 4_000, |c| {
        let n = gen::big_len(&mut c.r).min(9000);
        let s = match c.r.below(6) {
            0 => Sv::Seq((0..n).map(|_| sv::scalar(&mut c.r)).collect(), c.r.bool()),
            1 => Sv::Tuple((0..n).map(|i| Sv::U16(i as u16)).collect()),
            2 => Sv::Str(gen::text_n(&mut c.r, n * 8)),
            3 => Sv::Bytes(gen::bytes(&mut c.r, n * 8)),
            _ => {
                let mut m: Vec<(Sv, Sv)> = (0..n).map(|i| (Sv::I32(i as i32 - 100), Sv::U32(i as u32))).collect();
                c.r.shuffle(&mut m);
                Sv::Map(m, c.r.bool(), c.r.bool())
            }
        };
        trip(c, &s);
    });
    run.stage("data-model-huge", 120, 1_500, |c| {
        let n = *c.r.pick(&[32_767usize, 32_769, 65_533, 65_534, 65_535, 65_536, 65_537, 65_538, 66_000, 70_000, 131_073]);
        let s = match c.r.below(8) {
            0 | 1 => Sv::Seq((0..n).map(|i| Sv::U32(i as u32)).collect(), c.r.bool()),
            2 => Sv::Tuple((0..n).map(|i| Sv::U16(i as u16)).collect()),
            3 => Sv::Str(gen::text_n(&mut c.r, n)),
            4 => Sv::Bytes(gen::bytes(&mut c.r, n)),
            5 => Sv::Seq((0..n).map(|i| Sv::Bool(i % 3 == 0)).collect(), c.r.bool()),
            _ => {
                let mut m: Vec<(Sv, Sv)> = (0..n).map(|i| (Sv::I32(i as i32 - 100), Sv::U32(i as u32))).collect();
                c.r.shuffle(&mut m);
                Sv::Map(m, c.r.bool(), c.r.bool())
            }
        };
        trip(c, &s);
    });
    run.stage("data-model-deep", 3_000, 40_000, |c| {
        let h = if c.r.bool() { c.r.range(58, 70) } else { c.r.range(118, 134) };
        let s = sv::chain(&mut c.r, h);
        trip(c, &s);
    });
    run.stage("data-model-unrepresentable", 10_000, 200_000, |c| {
        let mut s = sv::any(&mut c.r);
        let x = match c.r.below(4) {
            0 => Sv::F32(*c.r.pick(&[0.0f32, 1.0, -1.5, f32::NAN, f32::INFINITY, 3e9])),
            1 | 2 => Sv::F64(*c.r.pick(&[0.0f64, 1.0, -1.5, f64::NAN, f64::INFINITY, 3e19])),
            _ => {
                let n = Sv::I128(gen::int(&mut c.r) as i128 * 3 - 7);
                // If it can be serialized at all, then as what it is.
                c.eval();
                match target(|| cbor::serde::to_vec(&n).map_err(kind)) {
                    Ok(Err(_)) => {}
                    Ok(Ok(b)) => {
                        if expect_sv(&n, In::Slice(&b)) != Ok(Ok(n.clone())) {
                            c.fail("i128", cut(format!("{:?} serializes as {}", n, hexs(&b))));
                        }
                    }
                    Err(p) => c.fail("panic", p),
                }
                return;
            }
        };
        sv::plant(&mut s, x, &mut c.r);
        trip(c, &s);
    });
    run.stage("data-model-duplicates", 10_000, 200_000, |c| {
        let mut s = sv::any(&mut c.r);
        if sv::duplicate(&mut s, &mut c.r) {
            trip(c, &s);
        } else {
            c.count("none");
        }
    });
    run.stage("serde-types-trip", 60_000, 1_500_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let d = tgen::value(&t.sh, &mut c.r);
        trip_type(c, t, &d);
    });
    run.stage_n("chars", 0x1100, |c| {
        for n in c.idx * 256..(c.idx + 1) * 256 {
            if let Some(x) = char::from_u32(n as u32) {
                trip(c, &Sv::Char(x));
                trip(c, &Sv::Str(x.to_string()));
            }
        }
    });
    run.stage_n("shorts", 512, |c| {
        for n in c.idx * 128..(c.idx + 1) * 128 {
            trip(c, &Sv::U16(n as u16));
            trip(c, &Sv::I16(n as u16 as i16));
            if n < 256 {
                trip(c, &Sv::U8(n as u8));
                trip(c, &Sv::I8(n as u8 as i8));
            }
            for k in 0..4u32 {
                let x = ((n as u64) << (16 * k)).wrapping_sub(n & 1);
                trip(c, &Sv::U64(x));
                trip(c, &Sv::I64(x as i64));
                trip(c, &Sv::U32(x as u32));
                trip(c, &Sv::I32(x as i32));
            }
        }
    });
}

fn trip_type(c: &mut Ctx, t: &SRoot, d: &DV) {
    c.evals(4);
    let w = match canon(&enc(&t.sh, d)) {
        Some(w) if height(&w) <= 64 => w,
        _ => {
            c.count("skipped");
            return;
        }
    };
    let b = raw(&w);
    c.seen(hash_bytes(&b) ^ hash_bytes(t.name.as_bytes()));
    c.sample(|| cut(format!("{} {:?}", t.name, d)));
    let got = target(|| (t.to_vec)(d));
    match &got {
        Ok(Ok(x)) => {
            // The bytes are canonical, whatever they are, and come back as the value.
            let p = parse_strict(x, Some(127));
            if p.is_err() {
                c.fail("not-canonical", cut(format!("{} {:?}: {}", t.name, d, hexs(x))));
            }
            let back = target(|| (t.from_slice)(x));
            if back != Ok(Ok(d.clone())) {
                c.fail("trip", cut(format!("{} {:?} comes back as {:?} from {}", t.name, d, back, hexs(x))));
            }
            c.digest(x);
        }
        x => c.fail("to-vec", cut(format!("{} {:?}: {:?}", t.name, d, x))),
    }
    match target(|| (t.to_value)(d)) {
        Ok(Ok(v)) => {
            let back = target(|| (t.from_value)(v));
            if back != Ok(Ok(d.clone())) {
                c.fail("trip-value", cut(format!("{} {:?} comes back as {:?}", t.name, d, back)));
            }
        }
        x => c.fail("to-value", cut(format!("{} {:?}: {:?}", t.name, d, x))),
    }
}

// -- C19 ---------------------------------------------------------------------------------------

fn c19(run: &Runner, roots: &[SRoot]) {
    run.stage("same-bytes", 60_000, 1_500_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let d = tgen::value(&t.sh, &mut c.r);
        let w = match canon(&enc(&t.sh, &d)) {
            Some(w) if height(&w) <= 64 => w,
            _ => return c.count("skipped"),
        };
        c.evals(6);
        let want = raw(&w);
        c.seen(hash_bytes(&want) ^ hash_bytes(t.name.as_bytes()));
        c.sample(|| cut(format!("{} {}", t.name, hexs(&want))));
        let n = target(|| (t.enc.to_vec)(&d));
        let s = target(|| (t.to_vec)(&d));
        match (&n, &s) {
            (Ok(a), Ok(Ok(b))) if a == b && *a == want => c.count("identical"),
            _ => c.fail("bytes", cut(format!("{} {:?}: native {:?}, serde {:?}, expected {}", t.name, d, n.map(|b| hexs(&b)), s.map(|r| r.map(|b| hexs(&b))), hexs(&want)))),
        }
        let nv = target(|| (t.enc.to_value)(&d));
        let sv = target(|| (t.to_value)(&d));
        let cv = |v: &Value| from_value(v).and_then(|x| canon(&x));
        match (&nv, &sv) {
            (Ok(a), Ok(Ok(b))) if cv(a) == cv(b) && cv(a).is_some() => {}
            _ => c.fail("values", cut(format!("{} {:?}: native {:?}, serde {:?}", t.name, d, nv, sv))),
        }
        // Each side reads what the other wrote.
        let a = target(|| (t.dec.from_slice)(&want));
        let b = target(|| (t.from_slice)(&want));
        if a != Ok(Ok(d.clone())) || b != Ok(Ok(d.clone())) {
            c.fail("cross", cut(format!("{} from {}: native {:?}, serde {:?}, expected {:?}", t.name, hexs(&want), a, b, d)));
        }
        let mut held = w.clone();
        mutate::shuffle(&mut held, &mut c.r);
        let a = target(|| (t.dec.from_value)(to_value(&held)));
        let b = target(|| (t.from_value)(to_value(&held)));
        if a != Ok(Ok(d.clone())) || b != Ok(Ok(d.clone())) {
            c.fail("cross-value", cut(format!("{} from {}: native {:?}, serde {:?}, expected {:?}", t.name, show(&held), a, b, d)));
        }
    });
    // The same strictness about the same bytes.
    let both_refuse = |c: &mut Ctx, t: &SRoot, b: &[u8]| {
        if parse_strict(b, Some(64)).is_ok() {
            return;
        }
        c.evals(2);
        c.seen(hash_bytes(b) ^ hash_bytes(t.name.as_bytes()));
        c.count("malformed");
        let n = target(|| (t.dec.from_slice)(b));
        let s = target(|| (t.from_slice)(b));
        if !matches!(n, Ok(Err(_))) || !matches!(s, Ok(Err(_))) {
            c.fail("strictness", cut(format!("{} from {}: native {:?}, serde {:?}", t.name, hexs(b), n, s)));
        }
    };
    run.stage("same-strictness", 40_000, 800_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let d = tgen::value(&t.sh, &mut c.r);
        let v = enc(&t.sh, &d);
        let f = *c.r.pick(FAULTS);
        if let Some(b) = gen::with_fault(&v, f, &mut c.r) {
            both_refuse(c, t, &b);
        }
        let mut b = vec![];
        gen::enc_lax(&v, &mut c.r, &mut b);
        both_refuse(c, t, &b);
        if let Some(mut b) = ref_encode(&v) {
            if c.r.bool() {
                b.push(c.r.u64() as u8);
            } else {
                b.pop();
            }
            both_refuse(c, t, &b);
        }
    });
    run.stage("same-limit", 2_000, 40_000, |c| {
        // A type of unbounded depth.
        let t = roots.iter().find(|t| t.name == "STree").unwrap();
        let levels = c.r.range(28, 36);
        let mut v = M(vec![(T("kids".into()), A(vec![])), (T("named".into()), M(vec![])), (T("v".into()), U(1))]);
        for _ in 0..levels {
            let inner = v;
            let mut m = M(vec![(T("kids".into()), A(vec![])), (T("named".into()), M(vec![])), (T("v".into()), U(2))]);
            if let M(m) = &mut m {
                if c.r.bool() {
                    m[0].1 = A(vec![inner]);
                } else {
                    m[1].1 = M(vec![(T("x".into()), inner)]);
                }
            }
            v = m;
        }
        let b = match ref_encode(&v) {
            Some(b) => b,
            None => return,
        };
        let ok = height(&v) <= 64;
        c.evals(2);
        c.seen_bytes(&b);
        c.count(if ok { "within" } else { "beyond" });
        let n = target(|| (t.dec.from_slice)(&b)).map(|r| r.is_ok());
        let s = target(|| (t.from_slice)(&b)).map(|r| r.is_ok());
        if n != Ok(ok) || s != Ok(ok) {
            c.fail("limit", cut(format!("{} levels: native {:?}, serde {:?}", height(&v), n, s)));
        }
    });
}

// -- C20 ---------------------------------------------------------------------------------------

fn plan(c: &mut Ctx) -> Plan {
    Plan {
        seed: c.r.u64(),
        fitting: c.r.below(4) > 0,
        partial: c.r.one_in(5),
    }
}

fn check_record(c: &mut Ctx, v: &RV, via_slice: bool) {
    let p = plan(c);
    let at = At::root(p);
    let want = rec::expect(&at, v);
    c.eval();
    let got = if via_slice {
        let b = raw(v);
        record(at, v, In::Slice(&b))
    } else {
        record(at, v, In::Val(to_value(v)))
    };
    c.count(match &want {
        rec::Exp::Ok(_) => "must.deliver",
        rec::Exp::OkOrErr(_) => "may.deliver",
        rec::Exp::Err => "must.refuse",
        rec::Exp::Any => "unspecified",
    });
    let ok = match (&want, &got) {
        (_, Err(_)) => false,
        (rec::Exp::Ok(w), Ok(Ok(g))) | (rec::Exp::OkOrErr(w), Ok(Ok(g))) => w == g,
        (rec::Exp::OkOrErr(_), Ok(Err(_))) => true,
        (rec::Exp::Err, Ok(Err(_))) => true,
        (rec::Exp::Any, _) => true,
        _ => false,
    };
    if let Ok(Ok(_)) = got {
        c.count("delivered");
        c.add("nodes.delivered", nodes(v) as u64);
    }
    if !ok {
        let s = format!("plan {:x}/{}/{} on {}: {:?}, expected {:?}", p.seed, p.fitting, p.partial, show(v), got, want);
        c.fail("visitor", cut(s));
    }
}

fn check_want(c: &mut Ctx, s: &Sv, v: &RV, slice: bool) {
    let w = sv::want(s, v);
    c.eval();
    let got = if slice {
        let b = raw(v);
        expect_sv(s, In::Slice(&b))
    } else {
        expect_sv(s, In::Val(to_value(v)))
    };
    c.count(match &w {
        sv::Want::Ok(_) => "must.accept",
        sv::Want::Err => "must.refuse",
        sv::Want::Any => "unspecified",
    });
    let ok = match (&w, &got) {
        (_, Err(_)) => false,
        (sv::Want::Ok(w), Ok(Ok(g))) => w == g,
        (sv::Want::Err, Ok(Err(_))) => true,
        (sv::Want::Any, _) => true,
        _ => false,
    };
    if !ok {
        c.fail("shape", cut(format!("{} read as {:?}: {:?}, expected {:?}", show(v), s, got, w)));
    }
}

/// Change one node of an item, or a few.
fn tweak(v: &mut RV, r: &mut Rng) {
    let down = !r.one_in(3);
    match v {
        A(a) if down && !a.is_empty() => {
            let i = r.below(a.len());
            tweak(&mut a[i], r)
        }
        M(m) if down && !m.is_empty() => {
            let i = r.below(m.len());
            if r.one_in(3) {
                tweak(&mut m[i].0, r)
            } else {
                tweak(&mut m[i].1, r)
            }
        }
        G(_, x) if down => tweak(x, r),
        A(a) if r.bool() => match r.below(4) {
            0 => {
                a.pop();
            }
            1 => a.push(gen::scalar(r)),
            2 => {
                let i = r.below(a.len() + 1);
                a.insert(i, NULL);
            }
            _ => {
                if !a.is_empty() {
                    let i = r.below(a.len());
                    let x = a.remove(i);
                    a.push(x);
                }
            }
        },
        M(m) if r.bool() => match r.below(4) {
            0 => {
                m.pop();
            }
            1 => m.push((gen::scalar(r), gen::scalar(r))),
            2 => m.push((T(sv::names()[r.below(17)].into()), gen::scalar(r))),
            _ => {
                if !m.is_empty() {
                    let i = r.below(m.len());
                    let k = m[i].0.clone();
                    m[i].0 = mutate::near_key(&k, r);
                }
            }
        },
        U(_) | N(_) if r.bool() => *v = mutate::edge_int(r),
        B(b) if r.bool() => {
            if r.bool() {
                b.push(1)
            } else {
                *v = T(String::from_utf8_lossy(b).into_owned())
            }
        }
        T(t) if r.bool() => {
            if r.bool() {
                t.push('a')
            } else {
                *v = B(t.as_bytes().to_vec())
            }
        }
        v => {
            *v = match r.below(6) {
                0 => A(vec![v.clone()]),
                1 => M(vec![(T("a".into()), v.clone())]),
                2 => G(r.below(40) as u64, Box::new(v.clone())),
                3 => S(20 + r.below(4) as u8),
                _ => gen::scalar(r),
            }
        }
    }
}

type Mut = fn(&mut RV, &[Note], &mut Rng) -> bool;
const MUTS: &[Mut] = &[
    mutate::scalar,
    mutate::structure,
    mutate::unknown,
    mutate::missing,
    mutate::variants,
    mutate::rekey,
    mutate::swap,
];

fn check_type(c: &mut Ctx, t: &SRoot, v: &RV) {
    let w = sdec::want(&t.sh, v);
    c.evals(1);
    c.count(match &w {
        sdec::Want::Ok(_) => "type.must.accept",
        sdec::Want::Err => "type.must.refuse",
        sdec::Want::Any => "type.unspecified",
    });
    let judge = |c: &mut Ctx, how: &str, got: Result<Result<DV, Kind>, String>| {
        let ok = match (&w, &got) {
            (_, Err(_)) => false,
            (sdec::Want::Ok(w), Ok(Ok(g))) => w == g,
            (sdec::Want::Err, Ok(Err(_))) => true,
            (sdec::Want::Any, _) => true,
            _ => false,
        };
        if !ok {
            c.fail("type", cut(format!("{} {} {}: {:?}, expected {:?}", t.name, how, show(v), got, w)));
        }
    };
    c.seen(hash_bytes(&raw(v)) ^ hash_bytes(t.name.as_bytes()));
    judge(c, "from_value", target(|| (t.from_value)(to_value(v))));
    if let Some(x) = canon(v) {
        if height(&x) <= 64 {
            c.eval();
            let b = raw(&x);
            judge(c, "from_slice", target(|| (t.from_slice)(&b)));
        }
    }
}

fn c20(run: &Runner, roots: &[SRoot]) {
    run.stage("visitor", 80_000, 3_000_000, |c| {
        let v = gen::any(&mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        match canon(&v) {
            Some(x) if height(&x) <= 64 && c.r.bool() => check_record(c, &x, true),
            _ => check_record(c, &v, false),
        }
        c.sample(|| cut(show(&v)));
    });
    run.stage("visitor-no-tags", 60_000, 2_000_000, |c| {
        let s = sv::any(&mut c.r);
        if let Some(mut v) = sv::wire(&s) {
            if c.r.one_in(3) {
                tweak(&mut v, &mut c.r);
            }
            c.seen(hash_bytes(&raw(&v)));
            match canon(&v) {
                Some(x) if height(&x) <= 64 && c.r.bool() => check_record(c, &x, true),
                _ => check_record(c, &v, false),
            }
        }
    });
    run.stage("visitor-ints", 60_000, 2_000_000, |c| {
        let n = gen::int(&mut c.r);
        let v = match c.r.below(3) {
            0 => mutate::edge_int(&mut c.r),
            1 => U(n),
            _ => N(n),
        };
        c.seen(hash_bytes(&raw(&v)));
        check_record(c, &v, true);
        for s in [
            Sv::I8(0),
            Sv::I16(0),
            Sv::I32(0),
            Sv::I64(0),
            Sv::I128(0),
            Sv::U8(0),
            Sv::U16(0),
            Sv::U32(0),
            Sv::U64(0),
            Sv::U128(0),
            Sv::Char('a'),
            Sv::Bool(false),
            Sv::F32(0.0),
            Sv::F64(0.0),
            Sv::Str(String::new()),
            Sv::Some(Box::new(Sv::I128(0))),
            Sv::Some(Box::new(Sv::U8(0))),
            Sv::Unit,
        ] {
            check_want(c, &s, &v, true);
        }
    });
    run.stage("shapes", 80_000, 2_500_000, |c| {
        let s = sv::any(&mut c.r);
        if let Some(v) = sv::wire(&s) {
            let mut v = canon(&v).unwrap_or(v);
            for _ in 0..c.r.range(1, 2) {
                tweak(&mut v, &mut c.r);
            }
            c.seen(hash_bytes(&raw(&v)));
            c.sample(|| cut(format!("{} as {:?}", show(&v), s)));
            match canon(&v) {
                Some(x) if height(&x) <= 64 && c.r.bool() => check_want(c, &s, &x, true),
                _ => check_want(c, &s, &v, false),
            }
        }
    });
    run.stage("shapes-unrelated", 20_000, 400_000, |c| {
        let s = sv::any(&mut c.r);
        let v = gen::any(&mut c.r);
        c.seen(hash_bytes(&raw(&v)));
        check_want(c, &s, &v, false);
    });
    run.stage("serde-types-changed", 100_000, 2_500_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let d = tgen::value(&t.sh, &mut c.r);
        let (mut v, n) = enc_notes(&t.sh, &d);
        for _ in 0..c.r.range(1, 2) {
            if c.r.one_in(3) {
                tweak(&mut v, &mut c.r);
            } else {
                let m = *c.r.pick(MUTS);
                m(&mut v, &n, &mut c.r);
            }
        }
        if c.r.bool() {
            mutate::shuffle(&mut v, &mut c.r);
        }
        check_type(c, t, &v);
    });
    run.stage("serde-types-unrelated", 10_000, 200_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let v = if c.r.bool() {
            gen::any(&mut c.r)
        } else {
            let u = c.r.pick(roots);
            enc(&u.sh, &tgen::value(&u.sh, &mut c.r))
        };
        check_type(c, t, &v);
    });
}

// -- C06 ---------------------------------------------------------------------------------------

fn c06(run: &Runner, roots: &[SRoot]) {
    let bytes = |c: &mut Ctx, t: &SRoot, b: &[u8]| {
        c.seen(hash_bytes(b) ^ hash_bytes(t.name.as_bytes()));
        c.evals(2);
        match target(|| (t.from_slice)(b)) {
            Err(p) => c.fail("panic", cut(format!("serde {} from {}: {}", t.name, hexs(b), p))),
            Ok(r) => c.count(if r.is_ok() { "accepted" } else { "rejected" }),
        }
        let s = sv::any(&mut c.r);
        if let Err(p) = expect_sv(&s, In::Slice(b)) {
            c.fail("panic", cut(format!("serde {:?} from {}: {}", s, hexs(b), p)));
        }
        if let Ok((v, _)) = parse_lax(b, Some(127)) {
            c.evals(3);
            if let Err(p) = target(|| (t.from_value)(to_value(&v))) {
                c.fail("panic", cut(format!("serde {} from {}: {}", t.name, show(&v), p)));
            }
            let p = plan(c);
            for r in [
                record(At::root(p), &v, In::Val(to_value(&v))).map(|_| ()),
                expect_sv(&s, In::Val(to_value(&v))).map(|_| ()),
            ] {
                if let Err(p) = r {
                    c.fail("panic", cut(format!("serde from {}: {}", show(&v), p)));
                }
            }
        }
    };
    run.stage("serde-hostile", 20_000, 500_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let b = gen::input(&mut c.r);
        bytes(c, t, &b);
    });
    run.stage("serde-mutated", 30_000, 600_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let d = tgen::value(&t.sh, &mut c.r);
        let (mut v, n) = enc_notes(&t.sh, &d);
        for _ in 0..c.r.range(0, 4) {
            let m = *c.r.pick(MUTS);
            m(&mut v, &n, &mut c.r);
        }
        let mut b = ref_encode(&v).unwrap_or_else(|| raw(&v));
        if c.r.one_in(3) {
            gen::mutate(&mut b, &mut c.r);
        }
        bytes(c, t, &b);
    });
    run.stage("serde-negative", 2_000, 50_000, |c| {
        // Dynamic values that hold integers no CBOR item denotes.
        let n: i128 = match c.r.below(5) {
            0 => 0,
            1 => 5,
            2 => i128::MIN,
            3 => i128::MAX,
            _ => -(1i128 << c.r.range(60, 126)) - c.r.below(3) as i128 + 1,
        };
        let v = Value::Negative(n);
        let v = match c.r.below(4) {
            0 => v,
            1 => Value::Array(Vec::from([v])),
            2 => Value::Map(Vec::from([(v.clone(), v)])),
            _ => Value::Map(Vec::from([(Value::TextString("a".into()), v)])),
        };
        let t = &roots[c.idx as usize % roots.len()];
        c.evals(1);
        if let Err(p) = target(|| (t.from_value)(v.clone())) {
            c.fail("panic", cut(format!("serde {} from {:?}: {}", t.name, v, p)));
        }
        let s = sv::scalar(&mut c.r);
        if let Err(p) = expect_sv(&s, In::Val(v.clone())) {
            c.fail("panic", cut(format!("serde {:?} from {:?}: {}", s, v, p)));
        }
    });
}

// -- C12 ---------------------------------------------------------------------------------------

fn c12(run: &Runner, roots: &[SRoot]) {
    run.stage("serde-batches", 600, 10_000, |c| {
        enum Case<'a> {
            Type(&'a SRoot, DV, Vec<u8>),
            Sv(Sv, Vec<u8>),
            Rec(At, RV),
        }
        let mut ins = vec![];
        for _ in 0..24 {
            ins.push(match c.r.below(3) {
                0 => {
                    let t = c.r.pick(roots);
                    let d = tgen::value_small(&t.sh, &mut c.r);
                    let (mut v, n) = enc_notes(&t.sh, &d);
                    if c.r.bool() {
                        c.r.pick(MUTS)(&mut v, &n, &mut c.r);
                    }
                    let b = ref_encode(&v).unwrap_or_else(|| raw(&v));
                    Case::Type(t, d, b)
                }
                1 => {
                    let s = sv::any(&mut c.r);
                    let mut v = sv::wire(&s).unwrap_or(NULL);
                    if c.r.bool() {
                        tweak(&mut v, &mut c.r);
                    }
                    Case::Sv(s, raw(&v))
                }
                _ => Case::Rec(At::root(plan(c)), gen::any(&mut c.r)),
            });
        }
        // Maps of hash tables come in any order as values, in one order as bytes.
        let go = |i: &Case| match i {
            Case::Type(t, d, b) => {
                format!("{:?} {:?} {:?}", target(|| (t.to_vec)(d)), target(|| (t.from_slice)(b)), target(|| (t.to_value)(d)).map(|r| r.map(|v| from_value(&v).and_then(|x| canon(&x)))))
            }
            Case::Sv(s, b) => {
                let r = expect_sv(s, In::Slice(b));
                format!("{:?} {:?} {:?}", target(|| cbor::serde::to_vec(s).map_err(kind)), r, target(|| cbor::serde::to_value(s).map_err(kind)))
            }
            Case::Rec(a, v) => format!("{:?}", record(*a, v, In::Val(to_value(v)))),
        };
        let first: Vec<String> = ins.iter().map(go).collect();
        for f in &first {
            c.eval();
            c.seen_bytes(f.as_bytes());
            c.digest(f.as_bytes());
        }
        let mut order: Vec<usize> = (0..ins.len()).collect();
        c.r.shuffle(&mut order);
        for i in order {
            c.eval();
            let x = go(&ins[i]);
            if x != first[i] {
                c.fail("repeat", cut(format!("{} then {}", first[i], x)));
            }
        }
        if c.idx % 4 == 0 {
            let (go, ins) = (&go, &ins);
            let outs: Vec<Vec<String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|t| {
                        s.spawn(move || {
                            no_slot();
                            let mut o: Vec<(usize, String)> =
                                (0..ins.len()).map(|k| (k + t * 5) % ins.len()).map(|k| (k, go(&ins[k]))).collect();
                            o.sort_by_key(|x| x.0);
                            o.into_iter().map(|x| x.1).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for o in outs {
                c.evals(o.len() as u64);
                c.count("threads.batches");
                for (k, x) in o.iter().enumerate() {
                    if *x != first[k] {
                        c.fail("threads", cut(format!("{} then {}", first[k], x)));
                    }
                }
            }
        }
    });
    // The same maps in other orders, and hash tables with other histories.
    run.stage("serde-held-differently", 10_000, 200_000, |c| {
        let s = sv::any(&mut c.r);
        let first = target(|| cbor::serde::to_vec(&s).map_err(kind));
        let mut t = s.clone();
        reorder(&mut t, &mut c.r);
        let again = target(|| cbor::serde::to_vec(&t).map_err(kind));
        c.evals(2);
        if let Ok(Ok(b)) = &first {
            c.seen_bytes(b);
        }
        if first != again {
            c.fail("held-order", cut(format!("{:?}: {:?} then {:?}", s, first, again)));
        }
        let r = c.r.pick(roots);
        let d = tgen::value(&r.sh, &mut c.r);
        let first = target(|| (r.to_vec)(&d));
        for g in [7usize, 100] {
            set_grow(g);
            let again = target(|| (r.to_vec)(&d));
            set_grow(0);
            c.eval();
            if first != again {
                c.fail("held-order", cut(format!("{} {:?}: {:?} then {:?}", r.name, d, first, again)));
            }
        }
    });
}

fn reorder(s: &mut Sv, r: &mut Rng) {
    match s {
        Sv::Some(y) | Sv::NewStruct(_, y) | Sv::NewVariant(_, _, _, y) => reorder(y, r),
        Sv::Seq(v, _) | Sv::Tuple(v) | Sv::TupStruct(_, v) | Sv::TupVariant(_, _, _, v) => v.iter_mut().for_each(|x| reorder(x, r)),
        Sv::Map(m, l, split) => {
            for e in m.iter_mut() {
                reorder(&mut e.0, r);
                reorder(&mut e.1, r);
            }
            r.shuffle(m);
            *l = r.bool();
            *split = r.bool();
        }
        Sv::Struct(_, f) | Sv::StVariant(_, _, _, f) => {
            f.iter_mut().for_each(|x| reorder(&mut x.1, r));
            r.shuffle(f);
        }
        _ => {}
    }
}

// -- C23 ---------------------------------------------------------------------------------------

fn c23(run: &Runner, roots: &[SRoot]) {
    run.stage("serde-bytes", 30_000, 600_000, |c| {
        let t = &roots[c.idx as usize % roots.len()];
        let d = tgen::value(&t.sh, &mut c.r);
        let v = enc(&t.sh, &d);
        let f = *c.r.pick(FAULTS);
        let b = match gen::with_fault(&v, f, &mut c.r) {
            Some(b) => b,
            None => return c.count("inapplicable"),
        };
        // The reader's verdict is judged by the value layer's part of this check; here, the bridge
        // has to pass it on, whatever type was asked for.
        let want = match target(|| cbor::reader::read_nested(&b, Some(64))) {
            Ok(Err(e)) => format!("{:?}", e),
            _ => return c.count("well-formed"),
        };
        c.eval();
        c.count(&want);
        c.seen_bytes(&b);
        let got = target(|| (t.from_slice)(&b));
        if got != Ok(Err(Kind::Decoder(want.clone()))) {
            c.fail("serde-kind", cut(format!("{} from {}: {:?} instead of {}", t.name, hexs(&b), got, want)));
        }
    });
    // A mismatch names what was found.
    run.stage("serde-found", 20_000, 400_000, |c| {
        use serde::de::{IgnoredAny, Unexpected};
        use std::collections::BTreeMap;
        #[derive(serde::Deserialize)]
        #[allow(dead_code)]
        enum E {
            A,
            B(u8),
        }
        #[derive(serde::Deserialize)]
        #[allow(dead_code)]
        struct Rec {
            a: u8,
        }
        let mut budget = 6;
        let v = if c.r.one_in(3) { gen::value(&mut c.r, 1, &mut budget) } else { gen::scalar(&mut c.r) };
        let text = match &v {
            U(n) => Unexpected::Unsigned(*n).to_string(),
            N(n) if *n >> 63 == 0 => Unexpected::Signed(-1 - *n as i64).to_string(),
            T(s) => Unexpected::Str(s).to_string(),
            RV::B(b) => Unexpected::Bytes(b).to_string(),
            A(_) => Unexpected::Seq.to_string(),
            M(_) => Unexpected::Map.to_string(),
            S(b @ (20 | 21)) => Unexpected::Bool(*b == 21).to_string(),
            _ => return c.count("no text of its own"),
        };
        let x = to_value(&v);
        let which = c.r.below(9);
        // Never of the right kind, whatever it contains.
        let skip = match which {
            0 | 1 => matches!(v, A(_)),
            2 | 3 => matches!(v, M(_)),
            4 => matches!(v, T(_) | M(_)),
            5 => matches!(v, S(_)),
            6 => matches!(v, T(_) | RV::B(_)),
            7 => matches!(v, U(n) if n < 256),
            _ => matches!(v, U(_) | N(_)),
        };
        if skip {
            return c.count("matches");
        }
        c.eval();
        let got = target(|| {
            fn e<T: serde::de::DeserializeOwned>(x: cbor::Value) -> Option<String> {
                cbor::serde::from_value::<T>(x).err().map(|e| e.to_string())
            }
            match which {
                0 => e::<Vec<IgnoredAny>>(x),
                1 => e::<(IgnoredAny, IgnoredAny)>(x),
                2 => e::<BTreeMap<u8, u8>>(x),
                3 => e::<Rec>(x),
                4 => e::<E>(x),
                5 => e::<bool>(x),
                6 => e::<String>(x),
                7 => e::<u8>(x),
                _ => e::<i64>(x),
            }
        });
        match got {
            Ok(Some(m)) if m.contains(&text) => c.count("named"),
            got => c.fail("serde-found", cut(format!("{} for type {}: {:?} does not name {}", show(&v), which, got, text))),
        }
    });
    run.stage("serde-refused", 20_000, 400_000, |c| {
        let mut s = sv::any(&mut c.r);
        let want = match c.r.below(3) {
            0 => {
                let x = if c.r.bool() { Sv::F32(1.0) } else { Sv::F64(1.0) };
                sv::plant(&mut s, x, &mut c.r);
                Kind::Unsupported
            }
            1 => {
                if !sv::duplicate(&mut s, &mut c.r) {
                    return c.count("none");
                }
                Kind::Encoder("DuplicateMapKey".into())
            }
            _ => {
                s = sv::chain(&mut c.r, 128);
                Kind::Encoder("TooMuchNesting".into())
            }
        };
        c.eval();
        c.count(&format!("{:?}", want));
        let got = target(|| cbor::serde::to_vec(&s).map_err(kind));
        if got != Ok(Err(want.clone())) {
            c.fail("serde-kind", cut(format!("{:?}: {:?} instead of {:?}", s, got, want)));
        }
    });
}

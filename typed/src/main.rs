//! Checks of the typed layer: built-in types and derived types against the reference mapping.
use vharness::gen::{self, FAULTS};
use vharness::model::*;
use vharness::rng::Rng;
use vharness::run::*;
use vtyped::dv::*;
use vtyped::gen as tgen;
use vtyped::mutate;
use vtyped::refm::*;

mod hand;
mod zoo {
    include!(env!("VZOO"));
}

/// Limit of the typed entry points.
const LIMIT: i8 = 64;

pub struct Env {
    roots: Vec<Root>,
}

impl Env {
    fn pick(&self, f: impl Fn(&Root) -> bool) -> Vec<&Root> {
        self.roots.iter().filter(|r| f(r)).collect()
    }
}

fn has(r: &Root, tag: &str) -> bool {
    r.tags.split(' ').any(|t| t == tag)
}

fn main() {
    let o = parse_args();
    set_defs(zoo::defs());
    let env = Env { roots: zoo::roots() };
    let run = Runner::new();
    run.stage_n("types", 1, |c| {
        c.eval();
        c.add("types.derived", defs().len() as u64);
        c.add("types.roots", env.roots.len() as u64);
        for (k, n) in zoo::FEATURES {
            c.add(&format!("types.with.{}", k), *n);
        }
    });
    let e = &env;
    match o.prop.as_str() {
        "C06" => c06(&run, e),
        "C09" => c09(&run, e),
        "C10" => c10(&run, e),
        "C11" => c11(&run, e),
        "C12" => c12(&run, e),
        "C13" => c13(&run, e),
        "C14" => c14(&run, e),
        "C15" => c15(&run, e),
        "C16" => c16(&run, e),
        "C17" => c17(&run, e),
        "C23" => c23(&run, e),
        "SIZE" => {
            for r in &e.roots {
                let t = std::time::Instant::now();
                let mut n = 0;
                let mut g = Rng::new(1, "x", 1);
                for _ in 0..20 {
                    n += nodes(&enc(&r.sh, &tgen::value(&r.sh, &mut g)));
                }
                println!("{:8.2} ms {:6} nodes {}", t.elapsed().as_secs_f64() * 1e3 / 20.0, n / 20, r.name);
            }
        }
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(3);
        }
    }
    run.finish();
}

// ---------------------------------------------------------------------------------------------

fn show_dv(d: &DV) -> String {
    cut(format!("{:?}", d))
}

fn show_res(r: &Result<Result<DV, u8>, String>) -> String {
    match r {
        Ok(Ok(d)) => format!("Ok({})", show_dv(d)),
        Ok(Err(k)) => format!("Err({})", kinds(*k)),
        Err(p) => format!("PANIC({})", p),
    }
}

fn show_exp(e: &Exp) -> String {
    match e {
        Exp::Ok(d) => format!("Ok({})", show_dv(d)),
        Exp::Err(k) => format!("Err({})", kinds(*k)),
        Exp::Any => "anything".into(),
    }
}

/// Compare one decoding with what the reference expects.
fn judge(
    c: &mut Ctx,
    sig: &str,
    root: &Root,
    how: &str,
    input: &dyn Fn() -> String,
    exp: &Exp,
    got: Result<Result<DV, u8>, String>,
    by_kind: bool,
) {
    c.eval();
    let ok = match (exp, &got) {
        (_, Err(_)) => false,
        (Exp::Any, _) => {
            c.count("expected.anything");
            true
        }
        (Exp::Ok(d), Ok(Ok(x))) => {
            c.count("expected.ok");
            d == x
        }
        (Exp::Err(m), Ok(Err(k))) => {
            c.count("expected.error");
            !by_kind || m & k != 0
        }
        _ => false,
    };
    if !ok {
        let sig = if got.is_err() { "panic" } else { sig };
        c.fail(
            sig,
            format!("{} via {}: input {}: got {}, expected {}", root.name, how, cut(input()), show_res(&got), show_exp(exp)),
        );
    }
}

/// Feed one item, held in any order, to every way of decoding and compare with the reference.
fn feed(c: &mut Ctx, sig: &str, root: &Root, v: &RV, by_kind: bool) {
    let d = match &root.dec {
        Some(d) => *d,
        None => return,
    };
    c.seen(shape_hash(v) ^ vharness::rng::hash_bytes(root.name.as_bytes()));
    // Canonical bytes.
    if let Some(b) = ref_encode(v) {
        let (exp, held) = match parse_strict(&b, Some(LIMIT)) {
            Ok(x) => (dec_default(&root.sh, &x), Some(x)),
            Err(_) => (Exp::Err(PARSE), None),
        };
        let got = target(|| (d.from_slice)(&b));
        judge(c, sig, root, "from_slice", &|| hexs(&b), &exp, got, by_kind);
        if let Some(x) = held {
            if *v != x && c.r.one_in(4) {
                let val = to_value(&x);
                let got = target(|| (d.from_value)(val));
                judge(c, sig, root, "from_value (sorted)", &|| show(&x), &exp, got, by_kind);
            }
        }
    }
    // Lenient bytes, in the order held.
    if c.r.bool() {
        let mut b = vec![];
        gen::enc_lax(v, &mut c.r, &mut b);
        if c.r.one_in(6) {
            b.push(0);
        }
        let exp = match parse_lax(&b, Some(LIMIT)) {
            Ok((x, _)) => dec_default(&root.sh, &x),
            Err(_) => Exp::Err(PARSE),
        };
        let got = target(|| (d.from_slice_ns)(&b));
        judge(c, sig, root, "from_slice_non_strict", &|| hexs(&b), &exp, got, by_kind);
    }
    // As a value, in the order held.
    let val = to_value(v);
    let exp = dec_default(&root.sh, v);
    let got = target(|| (d.from_value)(val));
    judge(c, sig, root, "from_value", &|| show(v), &exp, got, by_kind);
    if c.r.one_in(3) {
        let exp = dec(&root.sh, v);
        let val = to_value(v);
        let got = target(|| (d.try_from)(val));
        judge(c, sig, root, "try_from_cbor_value", &|| show(v), &exp, got, by_kind);
    }
}

/// A value of the root, its encoding and what lies where.
fn base(c: &mut Ctx, root: &Root) -> (RV, Vec<Note>) {
    let d = if c.r.one_in(4) { tgen::value_small(&root.sh, &mut c.r) } else { tgen::value(&root.sh, &mut c.r) };
    let (v, n) = enc_notes(&root.sh, &d);
    c.sample(|| format!("{} {}", root.name, cut(show(&v))));
    (v, n)
}

type Mut = fn(&mut RV, &[Note], &mut Rng) -> bool;

fn all_mutations(v: &mut RV, n: &[Note], r: &mut Rng) -> bool {
    let m: &[Mut] = &[
        mutate::scalar,
        mutate::structure,
        mutate::unknown,
        mutate::missing,
        mutate::variants,
        mutate::duplicate,
        mutate::rekey,
        mutate::swap,
    ];
    let f = *r.pick(m);
    f(v, n, r)
}

/// Mutate one to a few places, then hold the maps in some order.
fn changed(c: &mut Ctx, root: &Root, m: Mut, max: usize) -> RV {
    let (mut v, n) = base(c, root);
    let k = c.r.range(1, max);
    for _ in 0..k {
        if !m(&mut v, &n, &mut c.r) {
            c.count("mutation.none");
        }
    }
    if c.r.bool() {
        mutate::shuffle(&mut v, &mut c.r);
    }
    v
}

fn dec_stage(run: &Runner, sig: &'static str, name: &str, roots: &[&Root], m: Mut, max: usize, quick: u64, by_kind: bool) {
    if roots.is_empty() {
        return;
    }
    run.stage(name, quick, quick * 12, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let v = changed(c, root, m, max);
        feed(c, sig, root, &v, by_kind);
    });
}

fn has_def(s: &Sh, f: &dyn Fn(&Def) -> bool, depth: usize) -> bool {
    if depth == 0 {
        return false;
    }
    match s {
        Sh::Opt(t) | Sh::Vec(t) | Sh::Arr(t, _) | Sh::Set(t, _) => has_def(t, f, depth),
        Sh::Tup(t) => t.iter().any(|t| has_def(t, f, depth)),
        Sh::Map(k, v, _) => has_def(k, f, depth) || has_def(v, f, depth),
        Sh::Def(n) => {
            let d = def(*n);
            f(d) || match &d.kind {
                Kind::Struct(b) => b.fields.iter().any(|x| has_def(&x.sh, f, depth - 1)),
                Kind::Enum { vars, .. } => {
                    vars.iter().any(|v| v.body.fields.iter().any(|x| has_def(&x.sh, f, depth - 1)))
                }
            }
        }
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------

fn c06(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.dec.is_some());
    let call = |c: &mut Ctx, root: &Root, b: &[u8]| {
        let d = root.dec.unwrap();
        c.seen(vharness::rng::hash_bytes(b) ^ vharness::rng::hash_bytes(root.name.as_bytes()));
        for (how, f) in [("from_slice", d.from_slice), ("from_slice_non_strict", d.from_slice_ns)] {
            c.eval();
            match target(|| f(b)) {
                Err(p) => c.fail("panic", format!("{} via {}: {}: {}", root.name, how, hexs(b), p)),
                Ok(Ok(_)) => c.count("accepted"),
                Ok(Err(k)) => c.count(&format!("rejected.{}", kinds(k))),
            }
        }
        if let Ok((v, _)) = parse_lax(b, Some(127)) {
            for (how, f) in
                [("from_value", d.from_value), ("try_from", d.try_from), ("try_from_default", d.try_from_default)]
            {
                c.eval();
                let val = to_value(&v);
                if let Err(p) = target(|| f(val)) {
                    c.fail("panic", format!("{} via {}: {}: {}", root.name, how, show(&v), p));
                }
            }
        }
    };
    run.stage("typed-hostile", 20_000, 400_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let b = gen::input(&mut c.r);
        call(c, root, &b);
    });
    run.stage("typed-mutated-bytes", 30_000, 600_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let (v, _) = base(c, root);
        let mut b = ref_encode(&v).unwrap_or_else(|| raw(&v));
        if c.r.one_in(3) {
            b.clear();
            gen::enc_lax(&v, &mut c.r, &mut b);
        }
        gen::mutate(&mut b, &mut c.r);
        call(c, root, &b);
    });
    run.stage("typed-mutated-items", 30_000, 600_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let (mut v, n) = base(c, root);
        for _ in 0..c.r.range(1, 6) {
            all_mutations(&mut v, &n, &mut c.r);
        }
        mutate::shuffle(&mut v, &mut c.r);
        let mut b = vec![];
        if c.r.bool() {
            gen::enc_lax(&v, &mut c.r, &mut b);
        } else {
            b = ref_encode(&v).unwrap_or_else(|| raw(&v));
        }
        call(c, root, &b);
    });
    // Deep items at the limit, on threads with the default stack size of a thread.
    run.stage("typed-deep", 300, 4000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let h = c.r.range(40, 66);
        let (mut v, n) = base(c, root);
        if let Some(n) = mutate::pick_note(&n, &mut c.r, |_| true) {
            let ch = gen::chain(&mut c.r, h.saturating_sub(n.path.len()));
            if let Some(x) = mutate::at(&mut v, &n.path) {
                *x = ch;
            }
        }
        let b = ref_encode(&v).unwrap_or_else(|| raw(&v));
        let d = root.dec.unwrap();
        c.seen_bytes(&b);
        c.eval();
        let r = on_thread(2 << 20, || target(|| ((d.from_slice)(&b).is_ok(), (d.from_slice_ns)(&b).is_ok())));
        if let Err(p) = r {
            c.fail("panic", format!("{}: {}: {}", root.name, hexs(&b), p));
        }
    });
    // A recursive type, nested as deep as the limit allows and beyond.
    let tree = e.pick(|r| r.name == "HTree" || r.name == "HNest");
    run.stage_n("typed-recursive", 140, |c| {
        let root = match tree.get((c.idx % 2) as usize) {
            Some(r) => r,
            None => return,
        };
        let mut v = M(vec![]);
        for _ in 0..c.idx / 2 {
            v = match c.r.below(2) {
                0 => M(vec![(T("kids".into()), A(vec![v]))]),
                _ => M(vec![(T("named".into()), M(vec![(T("k".into()), v)]))]),
            };
        }
        let b = raw(&v);
        let d = root.dec.unwrap();
        c.seen_bytes(&b);
        c.eval();
        let fits = height(&v) <= LIMIT as usize;
        let r = on_thread(2 << 20, || target(|| (d.from_slice)(&b)));
        match r {
            Err(p) => c.fail("panic", format!("{}: {}: {}", root.name, hexs(&b), p)),
            Ok(r) => {
                if r.is_ok() != fits {
                    c.fail("recursive", format!("{} nested {}: {:?}", root.name, height(&v), r.is_ok()));
                }
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn c09(run: &Runner, e: &Env) {
    let scal: Vec<&Root> = e.pick(|r| r.dec.is_some() && mutate::is_scalar(&r.sh));
    // Every integer around zero and around every power of two, into every scalar type.
    run.stage_n("scalar-grid", 2 * (300 + 65 * 9) * scal.len() as u64, |c| {
        let root = scal[c.idx as usize % scal.len()];
        let k = c.idx as usize / scal.len();
        let (neg, k) = (k % 2 == 1, k / 2);
        let n = if k < 300 {
            k as u64
        } else {
            let p = (k - 300) / 9;
            let off = ((k - 300) % 9) as u64;
            (if p == 64 { 0u64 } else { 1u64 << p }).wrapping_add(off).wrapping_sub(4)
        };
        let v = if neg { N(n) } else { U(n) };
        feed(c, "scalar", root, &v, true);
    });
    // Every other kind of item into every scalar type.
    run.stage("scalar-kinds", 6_000, 60_000, |c| {
        let root = scal[c.idx as usize % scal.len()];
        let v = if c.r.one_in(5) {
            let mut b = 12;
            gen::value(&mut c.r, 3, &mut b)
        } else {
            let d = tgen::value_small(&root.sh, &mut c.r);
            let old = enc(&root.sh, &d);
            mutate::rival(&root.sh, &old, &mut c.r)
        };
        feed(c, "scalar", root, &v, true);
    });
    // All 16-bit integers into the narrow types, all code points into char.
    let narrow: Vec<&Root> = e.pick(|r| matches!(r.name, "u8" | "i8" | "u16" | "i16"));
    run.stage_n("scalar-all-16-bit", 4 * 2 * 515, |c| {
        let root = match narrow.get(c.idx as usize % 4) {
            Some(r) => r,
            None => return,
        };
        let k = c.idx as usize / 4;
        let (neg, k) = (k % 2 == 1, k / 2);
        let d = root.dec.unwrap();
        for i in 0..128u64 {
            let n = k as u64 * 128 + i;
            let v = if neg { N(n) } else { U(n) };
            let exp = dec(&root.sh, &v);
            let b = raw(&v);
            let got = target(|| (d.from_slice)(&b));
            judge(c, "scalar", root, "from_slice", &|| hexs(&b), &exp, got, true);
        }
        c.seen(c.idx);
    });
    let ch: Vec<&Root> = e.pick(|r| r.name == "char");
    run.stage_n("scalar-all-chars", 0x111000 / 0x1000 * 16, |c| {
        let root = match ch.first() {
            Some(r) => r,
            None => return,
        };
        let d = root.dec.unwrap();
        for i in 0..256u64 {
            let n = c.idx * 256 + i;
            let exp = dec(&root.sh, &U(n));
            let mut b = vec![];
            head(&mut b, 0, n);
            let got = target(|| (d.from_slice)(&b));
            judge(c, "scalar", root, "from_slice", &|| hexs(&b), &exp, got, true);
        }
        c.seen(c.idx);
    });
    let with = e.pick(|r| r.dec.is_some() && !mutate::is_scalar(&r.sh));
    dec_stage(run, "scalar", "scalar-anywhere", &with, mutate::scalar, 1, 40_000, true);
    dec_stage(run, "scalar", "scalars-anywhere", &with, mutate::scalar, 4, 10_000, true);
    // Unchanged encodings decode to exactly the value.
    let all = e.pick(|r| r.dec.is_some());
    dec_stage(run, "scalar", "scalar-unchanged", &all, |_, _, _| true, 1, 10_000, true);
}

fn c10(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.dec.is_some() && has(r, "builtin") && !mutate::is_scalar(&r.sh));
    dec_stage(run, "container", "container-unchanged", &roots, |_, _, _| true, 1, 6_000, false);
    dec_stage(run, "container", "container-one", &roots, mutate::structure, 1, 30_000, false);
    dec_stage(run, "container", "container-some", &roots, mutate::structure, 4, 15_000, false);
    dec_stage(run, "container", "container-any", &roots, all_mutations, 3, 15_000, false);
    let all = e.pick(|r| r.dec.is_some() && !mutate::is_scalar(&r.sh));
    let big = e.pick(|r| r.dec.is_some());
    dec_stage(run, "container", "container-huge", &big, mutate::grow, 1, 400, false);
    dec_stage(run, "container", "container-in-derived", &all, mutate::structure, 2, 15_000, false);
    // Every arity around the right one, elements right, null or wrong.
    let fixed = e.pick(|r| r.dec.is_some() && matches!(r.sh, Sh::Arr(_, _) | Sh::Tup(_) | Sh::BytesN(_)));
    run.stage("arity", 12_000, 100_000, |c| {
        let root = fixed[c.idx as usize % fixed.len()];
        let d = tgen::value_small(&root.sh, &mut c.r);
        let mut v = enc(&root.sh, &d);
        match &mut v {
            A(a) => {
                let n = if c.r.bool() { c.r.below(a.len() + 4) } else { (a.len() + c.r.below(5)).saturating_sub(2) };
                while a.len() > n {
                    if c.r.bool() {
                        a.pop();
                    } else {
                        a.remove(0);
                    }
                }
                while a.len() < n {
                    let x = if a.is_empty() || c.r.one_in(4) { NULL } else { a[c.r.below(a.len())].clone() };
                    let i = c.r.below(a.len() + 1);
                    a.insert(i, x);
                }
                if !a.is_empty() && c.r.one_in(4) {
                    let i = c.r.below(a.len());
                    a[i] = if c.r.bool() { NULL } else { UNDEF };
                }
            }
            B(b) => {
                let n = *c.r.pick(&[0, 1, b.len().saturating_sub(1), b.len(), b.len() + 1, b.len() + 8, 2 * b.len()]);
                b.resize(n, 7);
            }
            _ => {}
        }
        feed(c, "container", root, &v, false);
    });
    // Anything into anything: the encoding of one type given to another.
    run.stage("cross", 15_000, 200_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let other = *c.r.pick(&roots);
        let d = tgen::value_small(&other.sh, &mut c.r);
        let v = enc(&other.sh, &d);
        feed(c, "container", root, &v, false);
    });
}

// ---------------------------------------------------------------------------------------------

fn mapish(s: &Sh, depth: usize) -> bool {
    match s {
        Sh::Map(_, _, _) | Sh::Val => true,
        Sh::Opt(t) | Sh::Vec(t) | Sh::Arr(t, _) | Sh::Set(t, _) => mapish(t, depth),
        Sh::Tup(t) => t.iter().any(|t| mapish(t, depth)),
        Sh::Def(_) => true,
        _ => depth == 0,
    }
}

/// Whether the order of some array is open: hash sets of things that contain maps have a fixed
/// order, but not one that is documented.
fn open_order(s: &Sh, depth: usize) -> bool {
    match s {
        Sh::Set(t, false) => mapish(t, 5),
        Sh::Opt(t) | Sh::Vec(t) | Sh::Arr(t, _) | Sh::Set(t, _) => open_order(t, depth),
        Sh::Tup(t) => t.iter().any(|t| open_order(t, depth)),
        Sh::Map(k, v, _) => open_order(k, depth) || open_order(v, depth),
        Sh::Def(n) if depth > 0 => match &def(*n).kind {
            Kind::Struct(b) => b.fields.iter().any(|f| open_order(&f.sh, depth - 1)),
            Kind::Enum { vars, .. } => {
                vars.iter().any(|v| v.body.fields.iter().any(|f| open_order(&f.sh, depth - 1)))
            }
        },
        _ => false,
    }
}

fn sort_arrays(v: &RV) -> RV {
    match v {
        A(a) => {
            let mut a: Vec<RV> = a.iter().map(sort_arrays).collect();
            a.sort_by_key(raw);
            A(a)
        }
        M(m) => M(m.iter().map(|(k, x)| (sort_arrays(k), sort_arrays(x))).collect()),
        G(t, x) => G(*t, Box::new(sort_arrays(x))),
        v => v.clone(),
    }
}

/// Canonical, with open orders settled.
fn settle(open: bool, v: &RV) -> Option<RV> {
    let c = canon(v)?;
    if open {
        canon(&sort_arrays(&c))
    } else {
        Some(c)
    }
}

/// Every way of encoding one value against the reference.
fn feed_enc(c: &mut Ctx, sig: &str, root: &Root, d: &DV) -> Option<Vec<u8>> {
    let f = root.enc.as_ref()?;
    let v = enc(&root.sh, d);
    let want = ref_encode(&v)?;
    if height(&v) > 127 {
        return None;
    }
    c.seen(vharness::rng::hash_bytes(&want) ^ vharness::rng::hash_bytes(root.name.as_bytes()));
    let open = open_order(&root.sh, 6);
    c.eval();
    match target(|| (f.to_vec)(d)) {
        Ok(b) if b == want => {}
        Ok(b) if open && parse_strict(&b, None).ok().and_then(|x| settle(true, &x)) == settle(true, &v) => c.count("order.open"),
        Ok(b) => c.fail(sig, format!("{} to_vec({}) is {}, expected {}", root.name, show_dv(d), hexs(&b), hexs(&want))),
        Err(p) => c.fail("panic", format!("{} to_vec({}): {}", root.name, show_dv(d), p)),
    }
    let want_c = settle(open, &v);
    c.eval();
    match target(|| (f.to_value)(d)) {
        Ok(x) => {
            let got = from_value(&x).and_then(|x| settle(open, &x));
            if got != want_c {
                c.fail(sig, format!("{} to_value({}) is {:?}, expected {}", root.name, show_dv(d), x, show(&v)));
            }
        }
        Err(p) => c.fail("panic", format!("{} to_value({}): {}", root.name, show_dv(d), p)),
    }
    let want_o = opt(&root.sh, d);
    c.eval();
    match target(|| (f.opt)(d)) {
        Ok(x) => {
            let same = match (&x, &want_o) {
                (None, None) => {
                    c.count("optional.omitted");
                    true
                }
                (Some(x), Some(w)) => {
                    c.count("optional.emitted");
                    from_value(x).and_then(|x| settle(open, &x)) == settle(open, w)
                }
                _ => false,
            };
            if !same {
                c.fail(
                    &format!("{}-optional", sig),
                    format!("{} optional form of {} is {:?}, expected {:?}", root.name, show_dv(d), x, want_o.map(|x| show(&x))),
                );
            }
        }
        Err(p) => c.fail("panic", format!("{} into_optional({}): {}", root.name, show_dv(d), p)),
    }
    Some(want)
}

/// A value with one huge container or string.
fn huge(c: &mut Ctx, root: &Root) -> Option<DV> {
    root.dec?;
    let d = tgen::value_small(&root.sh, &mut c.r);
    let (mut v, n) = enc_notes(&root.sh, &d);
    if !mutate::grow(&mut v, &n, &mut c.r) {
        return None;
    }
    match dec_default(&root.sh, &v) {
        Exp::Ok(d) => {
            c.add("huge.nodes", nodes(&v) as u64);
            Some(d)
        }
        _ => None,
    }
}

fn c11(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.enc.is_some() && has(r, "builtin"));
    let rt = |c: &mut Ctx, root: &Root, d: &DV| {
        let b = match feed_enc(c, "encode", root, d) {
            Some(b) => b,
            None => return,
        };
        let f = root.enc.unwrap();
        c.eval();
        match target(|| (f.is_empty)(d)) {
            Ok(x) => {
                if x != is_empty(&root.sh, d) {
                    c.fail("is-empty", format!("{} is_empty({}) is {}", root.name, show_dv(d), x));
                }
            }
            Err(p) => c.fail("panic", format!("{} is_empty: {}", root.name, p)),
        }
        if let (Some(dec), true) = (root.dec, b.len() > 0) {
            if parse_strict(&b, Some(LIMIT)).is_err() {
                return;
            }
            let exp = Exp::Ok(d.clone());
            let got = target(|| (dec.from_slice)(&b));
            judge(c, "round-trip", root, "from_slice", &|| hexs(&b), &exp, got, false);
            let val = to_value(&enc(&root.sh, d));
            let got = target(|| (dec.from_value)(val));
            judge(c, "round-trip", root, "from_value", &|| hexs(&b), &exp, got, false);
        }
        if let Some(m) = root.as_map {
            as_map(c, root, m, d);
        }
    };
    run.stage("encode", 50_000, 800_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let d = tgen::value(&root.sh, &mut c.r);
        c.sample(|| format!("{} {}", root.name, show_dv(&d)));
        rt(c, root, &d);
    });
    run.stage("encode-huge", 250, 3_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        if let Some(d) = huge(c, root) {
            rt(c, root, &d);
        }
    });
    // The empty value of everything.
    let defaults: Vec<(&Root, DV)> = roots
        .iter()
        .filter_map(|r| match try_default(&r.sh) {
            Exp::Ok(d) => Some((*r, d)),
            _ => None,
        })
        .collect();
    run.stage_n("encode-empty", defaults.len() as u64, |c| {
        let (root, d) = &defaults[c.idx as usize];
        rt(c, root, d);
    });
    // All 16-bit integers, and every power of two with its neighbours, in every integer type.
    let ints = e.pick(|r| r.enc.is_some() && matches!(r.sh, Sh::Uint(_) | Sh::Int(_) | Sh::U128));
    run.stage_n("encode-integers", ints.len() as u64 * (512 + 130), |c| {
        let root = ints[c.idx as usize % ints.len()];
        let k = c.idx / ints.len() as u64;
        let vals: Vec<u128> = if k < 512 {
            (k as u128 * 128..k as u128 * 128 + 128).collect()
        } else {
            let p = (k - 512) as u32;
            let b = if p >= 128 { 0 } else { 1u128 << p };
            (0..6u128).map(|x| b.wrapping_add(x).wrapping_sub(3)).collect()
        };
        for n in vals {
            match root.sh {
                Sh::Uint(w) if w < 128 && n >> w == 0 => rt(c, root, &DV::U(n)),
                Sh::U128 => rt(c, root, &DV::U(n)),
                Sh::Int(w) if n >> (w - 1) == 0 => {
                    rt(c, root, &DV::I(n as i64));
                    rt(c, root, &DV::I(-1 - n as i64));
                }
                _ => {}
            }
        }
    });
    run.stage("references", 4_000, 40_000, |c| hand::references(c));
}

fn as_map(c: &mut Ctx, root: &Root, m: AsMap, d: &DV) {
    let open = open_order(&root.sh, 6);
    let v = match settle(open, &enc(&root.sh, d)) {
        Some(v) => v,
        None => return,
    };
    c.eval();
    c.count("as_map.checked");
    match target(|| m(d)) {
        Ok((items, val)) => {
            let items = from_value(&oasis_cbor::Value::Map(items)).and_then(|x| settle(open, &x));
            let val = from_value(&val).and_then(|x| settle(open, &x));
            if !matches!(v, M(_)) {
                c.fail("as-map", format!("{} is EncodeAsMap but encodes {} as {}", root.name, show_dv(d), show(&v)));
            } else if items.as_ref() != Some(&v) || val.as_ref() != Some(&v) {
                c.fail(
                    "as-map",
                    format!("{} into_cbor_map({}): {:?} / {:?}, expected {}", root.name, show_dv(d), items, val, show(&v)),
                );
            }
        }
        Err(p) => c.fail("panic", format!("{} into_cbor_map({}): {}", root.name, show_dv(d), p)),
    }
}

fn unordered(s: &Sh, depth: usize) -> bool {
    match s {
        Sh::Set(_, false) | Sh::Map(_, _, false) => true,
        Sh::Opt(t) | Sh::Vec(t) | Sh::Arr(t, _) | Sh::Set(t, _) => unordered(t, depth),
        Sh::Tup(t) => t.iter().any(|t| unordered(t, depth)),
        Sh::Map(k, v, _) => unordered(k, depth) || unordered(v, depth),
        Sh::Def(n) if depth > 0 => match &def(*n).kind {
            Kind::Struct(b) => b.fields.iter().any(|f| unordered(&f.sh, depth - 1)),
            Kind::Enum { vars, .. } => {
                vars.iter().any(|v| v.body.fields.iter().any(|f| unordered(&f.sh, depth - 1)))
            }
        },
        _ => false,
    }
}

/// The same value with its sets and maps listed in another order.
fn relist(d: &DV, s: &Sh, r: &mut Rng) -> DV {
    match (s, d) {
        (Sh::Set(t, _), DV::Q(a)) => {
            let mut a: Vec<DV> = a.iter().map(|x| relist(x, t, r)).collect();
            r.shuffle(&mut a);
            DV::Q(a)
        }
        (Sh::Map(k, v, _), DV::M(m)) => {
            let mut m: Vec<(DV, DV)> = m.iter().map(|(a, b)| (relist(a, k, r), relist(b, v, r))).collect();
            r.shuffle(&mut m);
            DV::M(m)
        }
        (Sh::Vec(t) | Sh::Arr(t, _), DV::Q(a)) => DV::Q(a.iter().map(|x| relist(x, t, r)).collect()),
        (Sh::Tup(t), DV::Q(a)) => DV::Q(t.iter().zip(a).map(|(t, x)| relist(x, t, r)).collect()),
        (Sh::Opt(t), DV::Some(x)) => DV::Some(Box::new(relist(x, t, r))),
        (Sh::Def(n), DV::R(f)) => match &def(*n).kind {
            Kind::Struct(b) => DV::R(b.fields.iter().zip(f).map(|(t, x)| relist(x, &t.sh, r)).collect()),
            _ => d.clone(),
        },
        (Sh::Def(n), DV::E(i, f)) => match &def(*n).kind {
            Kind::Enum { vars, .. } => {
                DV::E(*i, vars[*i].body.fields.iter().zip(f).map(|(t, x)| relist(x, &t.sh, r)).collect())
            }
            _ => d.clone(),
        },
        (Sh::Val, DV::V(v)) => {
            let mut v = v.0.clone();
            mutate::shuffle(&mut v, r);
            DV::V(OrdRV(v))
        }
        (_, d) => d.clone(),
    }
}

fn c12(run: &Runner, e: &Env) {
    let unord = e.pick(|r| r.enc.is_some() && unordered(&r.sh, 3));
    let held = |c: &mut Ctx, root: &Root, d: &DV| {
        let f = root.enc.unwrap();
        set_grow(0);
        let first = target(|| (f.to_vec)(d));
        let firstv = target(|| (f.to_value)(d));
        for g in [0usize, 7, 64, 1000] {
            let d2 = relist(d, &root.sh, &mut c.r);
            set_grow(g);
            let again = target(|| (f.to_vec)(&d2));
            let againv = target(|| (f.to_value)(&d2));
            set_grow(0);
            c.evals(2);
            if again != first {
                c.fail(
                    "held-order",
                    format!("{} to_vec of {}: {:?} and {:?}", root.name, show_dv(d), first.as_ref().map(|b| hexs(b)), again.map(|b| hexs(&b))),
                );
            }
            let cv = |v: &Result<oasis_cbor::Value, String>| v.as_ref().ok().and_then(from_value).and_then(|x| canon(&x));
            if cv(&againv) != cv(&firstv) {
                c.fail("held-order", format!("{} to_value of {}: {:?} and {:?}", root.name, show_dv(d), firstv, againv));
            }
        }
        if let Ok(b) = &first {
            c.seen_bytes(b);
            c.digest(b);
        }
    };
    run.stage("typed-held-differently", 12_000, 150_000, |c| {
        let root = unord[c.idx as usize % unord.len()];
        let d = tgen::value(&root.sh, &mut c.r);
        held(c, root, &d);
    });
    run.stage("typed-held-large", 500, 5_000, |c| {
        let root = unord[c.idx as usize % unord.len()];
        for _ in 0..3 {
            if let Some(d) = huge(c, root) {
                held(c, root, &d);
                return;
            }
        }
    });
    let both = e.pick(|r| r.dec.is_some());
    // Other bytes of the same length in the same place.
    run.stage("typed-same-place", 2_500, 40_000, |c| {
        let root = *c.r.pick(&both);
        let (v, _) = base(c, root);
        let Some(first) = ref_encode(&v) else { return };
        let mut buf = first.clone();
        c.seen_bytes(&buf);
        for round in 0..10 {
            if round > 0 {
                buf.copy_from_slice(&first);
                for _ in 0..c.r.range(1, 3) {
                    let i = c.r.below(buf.len());
                    match c.r.below(3) {
                        0 => buf[i] ^= 1 << c.r.below(5),
                        1 => buf[i] = buf[i] & 0xe0 | c.r.below(24) as u8,
                        _ => buf[i] = buf[i].wrapping_add(1),
                    }
                }
            }
            let other = *c.r.pick(&both);
            for root in [root, other] {
                let d = root.dec.unwrap();
                let strict = match parse_strict(&buf, Some(LIMIT)) {
                    Ok(x) => {
                        c.count("same_place.readable");
                        dec_default(&root.sh, &x)
                    }
                    Err(_) => Exp::Err(PARSE),
                };
                let got = target(|| (d.from_slice)(&buf));
                judge(c, "same-place", root, "from_slice", &|| hexs(&buf), &strict, got, false);
                let lax = match parse_lax(&buf, Some(LIMIT)) {
                    Ok((x, _)) => dec_default(&root.sh, &x),
                    Err(_) => Exp::Err(PARSE),
                };
                let got = target(|| (d.from_slice_ns)(&buf));
                judge(c, "same-place", root, "from_slice_non_strict", &|| hexs(&buf), &lax, got, false);
            }
        }
    });
    // A batch of calls, then the same in another order and on other threads.
    run.stage("typed-batches", 250, 4_000, |c| {
        let mut ins: Vec<(&Root, Vec<u8>, RV)> = vec![];
        for _ in 0..24 {
            let root = *c.r.pick(&both);
            let (mut v, n) = base(c, root);
            if c.r.bool() {
                all_mutations(&mut v, &n, &mut c.r);
            }
            let mut b = vec![];
            if c.r.one_in(4) {
                gen::enc_lax(&v, &mut c.r, &mut b);
            } else {
                b = ref_encode(&v).unwrap_or_else(|| raw(&v));
            }
            ins.push((root, b, v));
        }
        let go = |i: &(&Root, Vec<u8>, RV)| {
            let d = i.0.dec.unwrap();
            target(|| {
                let r1 = (d.from_slice)(&i.1);
                let r2 = (d.from_slice_ns)(&i.1);
                let r3 = (d.from_value)(to_value(&i.2));
                let again = i.0.again.map(|f| f(&i.1));
                format!("{:?} {:?} {:?} {:?}", r1, r2, r3, again)
            })
        };
        let first: Vec<Result<String, String>> = ins.iter().map(&go).collect();
        for (i, f) in ins.iter().zip(&first) {
            c.eval();
            c.seen_bytes(&i.1);
            let t = match f {
                Ok(s) => s.clone(),
                Err(p) => format!("PANIC {}", p),
            };
            c.digest(t.as_bytes());
        }
        let mut order: Vec<usize> = (0..ins.len()).collect();
        c.r.shuffle(&mut order);
        for i in order {
            c.eval();
            let x = go(&ins[i]);
            if x != first[i] {
                c.fail("repeat", format!("{} {}: {:?} then {:?}", ins[i].0.name, hexs(&ins[i].1), first[i], x));
            }
        }
        if c.idx % 4 == 0 {
            let (go, ins) = (&go, &ins);
            let outs: Vec<Vec<Result<String, String>>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4)
                    .map(|t| {
                        s.spawn(move || {
                            no_slot();
                            let mut o: Vec<(usize, Result<String, String>)> =
                                (0..ins.len()).map(|k| (k + t * 5) % ins.len()).map(|k| (k, go(&ins[k]))).collect();
                            o.sort_by_key(|x| x.0);
                            o.into_iter().map(|x| x.1).collect::<Vec<_>>()
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for o in outs {
                c.evals(o.len() as u64);
                c.count("threads.batches");
                for (k, x) in o.iter().enumerate() {
                    if *x != first[k] {
                        c.fail("threads", format!("{} {}: {:?} then {:?}", ins[k].0.name, hexs(&ins[k].1), first[k], x));
                    }
                }
            }
        }
    });
}

fn c13(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.enc.is_some() && has(r, "derived"));
    run.stage("derived-encode", 60_000, 900_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let d = if c.r.one_in(5) {
            tgen::value_with_skipped(&root.sh, &mut c.r)
        } else {
            tgen::value(&root.sh, &mut c.r)
        };
        c.sample(|| format!("{} {}", root.name, show_dv(&d)));
        if has_f13(&root.sh, &d) {
            c.count("excluded.finding");
            return;
        }
        feed_enc(c, "derived-encode", root, &d);
        if let Some(m) = root.as_map {
            let f13 = matches!(&root.sh, Sh::Def(n) if f13_def(*n));
            if !f13 {
                as_map(c, root, m, &d);
            } else {
                c.count("as_map.excluded.finding");
            }
        }
    });
    run.stage("derived-encode-huge", 200, 2_500, |c| {
        let root = roots[c.idx as usize % roots.len()];
        if let Some(d) = huge(c, root) {
            feed_enc(c, "derived-encode", root, &d);
        }
    });
    run.stage("derived-hand", 3_000, 30_000, |c| hand::encode_only(c));
    run.stage_n("probe-as-map", hand::PROBES, |c| hand::probe_as_map(c));
}

/// Declared as a map only by virtue of finding F13.
fn f13_def(n: usize) -> bool {
    let d = def(n);
    d.f13
        || match &d.kind {
            Kind::Struct(b) => b.form == Form::Inner && matches!(&b.fields[0].sh, Sh::Def(m) if f13_def(*m)),
            _ => false,
        }
}

/// Values that finding F13 makes panic: none in the zoo, whose tagged enums only nest sound types.
fn has_f13(_s: &Sh, _d: &DV) -> bool {
    false
}

fn c14(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.enc.is_some() && r.dec.is_some() && has(r, "derived"));
    let one = |c: &mut Ctx, root: &Root, d: &DV| {
        let (f, g) = (root.enc.unwrap(), root.dec.unwrap());
        let v = match canon(&enc(&root.sh, d)) {
            Some(v) if height(&v) <= LIMIT as usize => v,
            _ => return,
        };
        let exp = if has(root, "lossy") {
            dec_default(&root.sh, &v)
        } else {
            match norm(&root.sh, d) {
                Some(n) => Exp::Ok(n),
                None => return,
            }
        };
        let model = dec_default(&root.sh, &v);
        if model != exp && model != Exp::Any {
            panic!("reference disagrees with itself: {} {:?} {:?} {:?}", root.name, d, exp, model);
        }
        let b = match target(|| (f.to_vec)(d)) {
            Ok(b) => b,
            Err(p) => {
                c.eval();
                c.fail("panic", format!("{} to_vec({}): {}", root.name, show_dv(d), p));
                return;
            }
        };
        c.seen(vharness::rng::hash_bytes(&b) ^ vharness::rng::hash_bytes(root.name.as_bytes()));
        let got = target(|| (g.from_slice)(&b));
        judge(c, "round-trip", root, "to_vec, from_slice", &|| format!("{} as {}", show_dv(d), hexs(&b)), &exp, got, false);
        let got = target(|| (g.from_slice_ns)(&b));
        judge(c, "round-trip", root, "to_vec, from_slice_non_strict", &|| format!("{} as {}", show_dv(d), hexs(&b)), &exp, got, false);
        let got = target(|| (g.from_value)((f.to_value)(d)));
        judge(c, "round-trip", root, "to_value, from_value", &|| show_dv(d), &exp, got, false);
        if let (Exp::Ok(_), Some(again)) = (&exp, root.again) {
            c.eval();
            match target(|| again(&b)) {
                Ok(Ok(b2)) => {
                    if b2 != b && !has(root, "lossy") {
                        c.fail("second-encoding", format!("{} {}: {} then {}", root.name, show_dv(d), hexs(&b), hexs(&b2)));
                    }
                }
                x => c.fail("second-encoding", format!("{} {}: {:?}", root.name, hexs(&b), x.map(|x| x.map(|b| hexs(&b))))),
            }
        }
    };
    run.stage("derived-round-trip", 60_000, 900_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let d = tgen::value(&root.sh, &mut c.r);
        c.sample(|| format!("{} {}", root.name, show_dv(&d)));
        one(c, root, &d);
    });
    run.stage("derived-round-trip-small", 30_000, 300_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let d = tgen::value_small(&root.sh, &mut c.r);
        one(c, root, &d);
    });
    run.stage("derived-round-trip-huge", 200, 2_500, |c| {
        let root = roots[c.idx as usize % roots.len()];
        if let Some(d) = huge(c, root) {
            one(c, root, &d);
        }
    });
    run.stage("derived-hand-round-trip", 3_000, 30_000, |c| hand::round_trip(c));
    run.stage("derived-held-round-trip", 4_000, 40_000, |c| hand::held_round_trip(c));
}

fn c15(run: &Runner, e: &Env) {
    let body = |d: &Def| match &d.kind {
        Kind::Struct(b) => b.form != Form::Inner,
        _ => true,
    };
    let roots = e.pick(|r| r.dec.is_some() && has_def(&r.sh, &body, 3));
    let loose = e.pick(|r| {
        r.dec.is_some()
            && has_def(
                &r.sh,
                &|d: &Def| match &d.kind {
                    Kind::Struct(b) => b.allow_unknown,
                    Kind::Enum { vars, .. } => vars.iter().any(|v| v.body.allow_unknown),
                },
                1,
            )
    });
    dec_stage(run, "unknown", "unknown", &roots, mutate::unknown, 2, 40_000, true);
    dec_stage(run, "unknown", "unknown-allowed", &loose, mutate::unknown, 4, 30_000, true);
    dec_stage(run, "unknown", "unknown-huge", &loose, mutate::grow_body, 1, 250, true);
    dec_stage(run, "unknown", "order", &roots, |_, _, _| true, 1, 15_000, true);
    dec_stage(run, "unknown", "rekeyed", &roots, mutate::rekey, 2, 25_000, true);
    dec_stage(run, "unknown", "swapped", &roots, mutate::swap, 3, 15_000, true);
    dec_stage(run, "unknown", "repeated", &roots, mutate::duplicate, 1, 10_000, true);
    dec_stage(
        run,
        "unknown",
        "unknown-and-missing",
        &loose,
        |v, n, r| if r.bool() { mutate::unknown(v, n, r) } else { mutate::missing(v, n, r) },
        5,
        15_000,
        true,
    );
}

fn c16(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.dec.is_some() && has(r, "derived"));
    dec_stage(run, "missing", "missing", &roots, mutate::missing, 1, 40_000, true);
    dec_stage(run, "missing", "missing-some", &roots, mutate::missing, 4, 30_000, true);
    dec_stage(run, "missing", "present", &roots, |_, _, _| true, 1, 10_000, true);
    let all = e.pick(|r| r.dec.is_some());
    run.stage("defaults", 3_000, 30_000, |c| {
        let root = all[c.idx as usize % all.len()];
        let d = root.dec.unwrap();
        let exp = try_default(&root.sh);
        let got = target(d.try_default);
        judge(c, "default", root, "try_default", &|| "nothing".into(), &exp, got, true);
        for v in [NULL, UNDEF] {
            let val = to_value(&v);
            let got = target(|| (d.try_from_default)(val));
            judge(c, "default", root, "try_from_cbor_value_default", &|| show(&v), &exp, got, true);
            let val = to_value(&v);
            let exp2 = dec(&root.sh, &v);
            let got = target(|| (d.try_from)(val));
            judge(c, "default", root, "try_from_cbor_value", &|| show(&v), &exp2, got, true);
            let b = raw(&v);
            let got = target(|| (d.from_slice)(&b));
            judge(c, "default", root, "from_slice", &|| show(&v), &exp, got, true);
        }
        // A present value is never replaced.
        let x = tgen::value_small(&root.sh, &mut c.r);
        let v = enc(&root.sh, &x);
        let exp = dec_default(&root.sh, &v);
        let val = to_value(&v);
        let got = target(|| (d.try_from_default)(val));
        judge(c, "default", root, "try_from_cbor_value_default", &|| show(&v), &exp, got, true);
        c.seen(c.idx);
    });
    // Omitting and decoding: optional fields at their defaults.
    let opt = e.pick(|r| {
        r.dec.is_some()
            && r.enc.is_some()
            && !has(r, "lossy")
            && has_def(
                &r.sh,
                &|d: &Def| match &d.kind {
                    Kind::Struct(b) => b.fields.iter().any(|f| f.optional),
                    Kind::Enum { vars, .. } => vars.iter().any(|v| v.body.fields.iter().any(|f| f.optional)),
                },
                3,
            )
    });
    run.stage("omitted", 20_000, 200_000, |c| {
        let root = opt[c.idx as usize % opt.len()];
        let x = tgen::value_small(&root.sh, &mut c.r);
        let (f, g) = (root.enc.unwrap(), root.dec.unwrap());
        let n = match norm(&root.sh, &x) {
            Some(n) => n,
            None => return,
        };
        c.seen(c.idx);
        let got = target(|| (g.from_slice)(&(f.to_vec)(&x)));
        judge(c, "omitted", root, "to_vec, from_slice", &|| show_dv(&x), &Exp::Ok(n), got, false);
    });
}

fn c17(run: &Runner, e: &Env) {
    let en = |d: &Def| matches!(d.kind, Kind::Enum { .. });
    let roots = e.pick(|r| r.dec.is_some() && has_def(&r.sh, &en, 2));
    let top = e.pick(|r| r.dec.is_some() && matches!(&r.sh, Sh::Def(n) if en(def(*n))));
    dec_stage(run, "variant", "variants", &top, mutate::variants, 1, 50_000, false);
    dec_stage(run, "variant", "variants-nested", &roots, mutate::variants, 3, 25_000, false);
    dec_stage(run, "variant", "variants-content", &top, all_mutations, 2, 25_000, false);
    dec_stage(run, "variant", "variants-unchanged", &top, |_, _, _| true, 1, 10_000, false);
    // The encoding of any type offered to an enum; every small scalar.
    let all = e.pick(|r| r.enc.is_some());
    run.stage("variants-foreign", 20_000, 200_000, |c| {
        let root = top[c.idx as usize % top.len()];
        let v = if c.r.one_in(3) {
            gen::scalar_small(&mut c.r)
        } else {
            let other = *c.r.pick(&all);
            let d = tgen::value_small(&other.sh, &mut c.r);
            enc(&other.sh, &d)
        };
        feed(c, "variant", root, &v, false);
    });
    // Skipped variants by name.
    let skip = e.pick(|r| {
        r.dec.is_some()
            && matches!(&r.sh, Sh::Def(n) if matches!(&def(*n).kind, Kind::Enum { vars, .. } if vars.iter().any(|v| v.skip)))
    });
    run.stage("variants-skipped", 2_000, 20_000, |c| {
        let root = skip[c.idx as usize % skip.len()];
        let (n, vars) = match &root.sh {
            Sh::Def(n) => match &def(*n).kind {
                Kind::Enum { vars, .. } => (*n, vars),
                _ => return,
            },
            _ => return,
        };
        let _ = n;
        let k = vars.iter().filter(|v| v.skip).nth(c.r.below(3) % vars.iter().filter(|v| v.skip).count()).unwrap();
        let fs: Vec<RV> = k.body.fields.iter().map(|f| enc(&f.sh, &tgen::value_small(&f.sh, &mut c.r))).collect();
        let v = match (fs.len(), c.r.below(4)) {
            (0, 0 | 1) => k.key.clone(),
            (1, 0..=2) => M(vec![(k.key.clone(), fs[0].clone())]),
            (_, 3) => UNDEF,
            _ => M(vec![(k.key.clone(), if fs.len() == 1 { fs[0].clone() } else { A(fs) })]),
        };
        feed(c, "variant", root, &v, false);
    });
}

fn c23(run: &Runner, e: &Env) {
    let roots = e.pick(|r| r.dec.is_some());
    run.stage("typed-malformed", 20_000, 200_000, |c| {
        let root = roots[c.idx as usize % roots.len()];
        let (v, _) = base(c, root);
        let v = match canon(&v) {
            Some(v) => v,
            None => return,
        };
        let f = *c.r.pick(FAULTS);
        let b = match gen::with_fault(&v, f, &mut c.r) {
            Some(b) => b,
            None => {
                c.count("fault.none");
                return;
            }
        };
        let d = root.dec.unwrap();
        let exp = match parse_strict(&b, Some(LIMIT)) {
            Ok(x) => dec_default(&root.sh, &x),
            Err(_) => Exp::Err(PARSE),
        };
        c.count(&format!("fault.{:?}", f));
        c.seen_bytes(&b);
        let got = target(|| (d.from_slice)(&b));
        judge(c, "error-kind", root, "from_slice", &|| hexs(&b), &exp, got, true);
        let exp = match parse_lax(&b, Some(LIMIT)) {
            Ok((x, _)) => dec_default(&root.sh, &x),
            Err(_) => Exp::Err(PARSE),
        };
        let got = target(|| (d.from_slice_ns)(&b));
        judge(c, "error-kind", root, "from_slice_non_strict", &|| hexs(&b), &exp, got, true);
    });
    dec_stage(run, "error-kind", "typed-error-kinds", &roots, all_mutations, 1, 50_000, true);
    dec_stage(run, "error-kind", "typed-error-kinds-some", &roots, all_mutations, 3, 15_000, true);
}


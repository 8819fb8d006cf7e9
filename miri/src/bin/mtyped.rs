//! Built-in and derived types.
use oasis_cbor::Value;
use std::cell::RefCell;
use vharness::gen;
use vharness::model::*;
use vharness::rng::Rng;
use vmiri::*;
use vtyped::dv::*;
use vtyped::gen as tgen;
use vtyped::mutate;
use vtyped::refm::*;

mod zoo {
    #![allow(unused_imports, dead_code)]
    include!(env!("VZOO"));
}

thread_local! {
    static ROOTS: RefCell<Vec<Root>> = RefCell::new(zoo::roots());
}

fn root(i: u64) -> Root {
    ROOTS.with(|x| {
        let x = x.borrow();
        x[(i % x.len() as u64) as usize].clone()
    })
}

type Mut = fn(&mut RV, &[Note], &mut Rng) -> bool;
const MUTS: &[Mut] =
    &[mutate::scalar, mutate::structure, mutate::unknown, mutate::missing, mutate::variants, mutate::rekey, mutate::swap];

fn small(t: &Root, r: &mut Rng) -> DV {
    for _ in 0..20 {
        let d = tgen::value(&t.sh, r);
        if nodes(&enc(&t.sh, &d)) < 40 {
            return d;
        }
    }
    tgen::value(&t.sh, r)
}

/// Encodings of values, sent through the type.
fn gen_again(r: &mut Rng) -> (u64, Vec<u8>) {
    loop {
        let i = r.u64();
        let t = root(i);
        let d = small(&t, r);
        if let (Some(_), Some(w)) = (&t.again, canon(&enc(&t.sh, &d))) {
            return (i, raw(&w));
        }
    }
}

fn again(i: u64, b: &[u8], o: &mut Out) {
    let t = root(i);
    o.put(t.name);
    if let Some(a) = t.again {
        let x = o.calm(|| a(b));
        o.res(x, |o, b| o.bytes(&b));
    }
}

/// Encodings of all kinds, decoded into types, and values of those types encoded.
fn gen_changed(r: &mut Rng) -> (u64, Vec<u8>) {
    let i = r.u64();
    let t = root(i);
    let d = small(&t, r);
    let (mut v, n) = enc_notes(&t.sh, &d);
    for _ in 0..r.below(3) {
        let m = *r.pick(MUTS);
        m(&mut v, &n, r);
    }
    if r.one_in(3) {
        mutate::shuffle(&mut v, r);
    }
    let mut b = ref_encode(&v).unwrap_or_else(|| raw(&v));
    if r.one_in(3) {
        b = raw(&v);
    }
    if r.one_in(6) {
        gen::mutate(&mut b, r);
    }
    (i, b)
}

fn changed(i: u64, b: &[u8], o: &mut Out) {
    let t = root(i);
    o.put(t.name);
    if let Some(x) = &t.dec {
        let strict = o.calm(|| (x.from_slice)(b));
        o.put(&strict);
        let lax = o.calm(|| (x.from_slice_ns)(b));
        o.put(&lax);
        if let Ok(v) = oasis_cbor::reader::read_nested_non_strict(b, Some(64)) {
            let y = o.calm(|| (x.try_from_default)(v));
            o.put(&y);
        }
        let d = o.calm(|| (x.try_default)());
        o.put(&d);
        if let (Some(Ok(d)), Some(e)) = (lax, &t.enc) {
            if let Some((v, opt)) = o.calm(|| ((e.to_value)(&d), (e.opt)(&d))) {
                norm(&v, o);
                if let Some(v) = opt {
                    norm(&v, o);
                }
            }
            if let Some(b) = o.calm(|| (e.to_vec)(&d)) {
                o.bytes(&b);
            }
            if let Some(m) = &t.as_map {
                if let Some((m, v)) = o.calm(|| m(&d)) {
                    norm(&Value::Map(m), o);
                    norm(&v, o);
                }
            }
        }
    }
}

/// Hash maps hold their entries in any order.
fn norm(v: &Value, o: &mut Out) {
    match from_value(v).and_then(|v| canon(&v)) {
        Some(v) => o.put(v),
        None => o.put("not canonical"),
    }
}

fn main() {
    set_defs(zoo::defs());
    let s = |name, n, gen, run| Stage { name, n, gen, run };
    vmiri::main(&[s("again", 500, gen_again, again), s("changed", 700, gen_changed, changed)])
}

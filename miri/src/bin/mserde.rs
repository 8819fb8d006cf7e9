//! The serde bridge.
use std::cell::RefCell;
use vbridge::rec::{At, Plan};
use vbridge::{expect_sv, kind, record, sroot, sv, Bs, In, Kind, SRoot};
use vharness::gen;
use vharness::model::*;
use vharness::rng::Rng;
use vmiri::*;
use vtyped::gen as tgen;
use vtyped::mutate;
use vtyped::refm::*;

mod zoo {
    #![allow(unused_imports, dead_code)]
    include!(env!("VSZOO"));
}

thread_local! {
    static ROOTS: RefCell<Vec<SRoot>> = RefCell::new(zoo::roots());
}

type Mut = fn(&mut RV, &[Note], &mut Rng) -> bool;
const MUTS: &[Mut] =
    &[mutate::scalar, mutate::structure, mutate::unknown, mutate::missing, mutate::variants, mutate::rekey, mutate::swap];

/// The dynamic value of a seed, not too large.
fn dynamic(seed: u64) -> sv::Sv {
    let mut r = Rng::new(seed, "dynamic", 0);
    let (mut b, d) = (*r.pick(&[2isize, 5, 9]), r.range(1, 4));
    sv::tree(&mut r, d, &mut b)
}

fn gen_model(r: &mut Rng) -> (u64, Vec<u8>) {
    let seed = r.u64();
    let w = sv::wire(&dynamic(seed)).and_then(|w| canon(&w));
    (seed, w.map(|w| raw(&w)).unwrap_or_default())
}

fn expected(s: &sv::Sv, got: Result<Result<sv::Sv, Kind>, String>, o: &mut Out) {
    match got {
        Ok(Ok(g)) if g == sv::norm(s) => o.put("the same"),
        x => o.dbg(x),
    }
}

fn model(seed: u64, b: &[u8], o: &mut Out) {
    let s = dynamic(seed);
    let x = o.calm(|| oasis_cbor::serde::to_vec(&s).map_err(kind));
    o.res(x, |o, b| o.bytes(&b));
    if let Some(Ok(v)) = o.calm(|| oasis_cbor::serde::to_value(&s).map_err(kind)) {
        expected(&s, expect_sv(&s, In::Val(v)), o);
    }
    expected(&s, expect_sv(&s, In::Slice(b)), o);
}

fn gen_other(r: &mut Rng) -> (u64, Vec<u8>) {
    let mut b = *r.pick(&[2isize, 5, 9]);
    (r.u64(), raw(&gen::value(r, 4, &mut b)))
}

fn other(seed: u64, b: &[u8], o: &mut Out) {
    let s = dynamic(seed);
    o.dbg(expect_sv(&s, In::Slice(b)));
    let mut r = Rng::new(seed, "plan", 0);
    let p = Plan { seed: r.u64(), fitting: r.below(4) > 0, partial: r.one_in(5) };
    if let (Ok((v, _)), Ok(x)) = (parse_lax(b, None), oasis_cbor::reader::read_nested_non_strict(b, None)) {
        o.put(match record(At::root(p), &v, In::Val(x)) {
            Ok(Ok(v)) => Ok(v),
            e => Err(format!("{:?}", e)),
        });
    }
}

fn gen_types(r: &mut Rng) -> (u64, Vec<u8>) {
    let i = r.u64();
    ROOTS.with(|x| {
        let x = x.borrow();
        let t = &x[(i % x.len() as u64) as usize];
        let mut d = tgen::value(&t.sh, r);
        for _ in 0..20 {
            if nodes(&enc(&t.sh, &d)) < 40 {
                break;
            }
            d = tgen::value(&t.sh, r);
        }
        let (mut v, n) = enc_notes(&t.sh, &d);
        for _ in 0..r.below(3) {
            let m = *r.pick(MUTS);
            m(&mut v, &n, r);
        }
        (i, ref_encode(&v).unwrap_or_else(|| raw(&v)))
    })
}

fn types(i: u64, b: &[u8], o: &mut Out) {
    ROOTS.with(|x| {
        let x = x.borrow();
        let t = &x[(i % x.len() as u64) as usize];
        o.put(t.name);
        let d = o.calm(|| (t.from_slice)(b));
        o.dbg(d.as_ref().and_then(|d| d.as_ref().err()));
        if let Some(Ok(d)) = d {
            o.put(&d);
            let x = o.calm(|| (t.to_vec)(&d));
            o.res(x, |o, b| o.bytes(&b));
        }
        let d = o.calm(|| (t.dec.from_slice)(b));
        o.put(&d);
        if let Some(Ok(d)) = d {
            let x = o.calm(|| (t.enc.to_vec)(&d));
            o.put(x);
        }
    })
}

fn main() {
    set_defs(zoo::defs());
    let s = |name, n, gen, run| Stage { name, n, gen, run };
    vmiri::main(&[s("model", 300, gen_model, model), s("other", 300, gen_other, other), s("types", 500, gen_types, types)])
}

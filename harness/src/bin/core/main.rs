//! Checks of the value layer: reader, writer, ordering, nesting, non-strict mode, macros.
extern crate alloc;

use oasis_cbor as cbor;
use vharness::alloc::{measure, Counting};
use vharness::gen::{self, Fault};
use vharness::model::*;
use vharness::rng::{hash_bytes, Rng};
use vharness::run::*;

use cbor::reader::{read_nested, read_nested_non_strict, DecoderError};
use cbor::writer::{write, write_nested, EncoderError};
use cbor::{SimpleValue, Value};
use std::cmp::Ordering;

#[global_allocator]
static ALLOC: Counting = Counting;

mod p_order;
mod p_parse;
mod p_res;
mod p_misc;
mod p_write;

fn main() {
    let o = parse_args();
    let run = Runner::new();
    match o.prop.as_str() {
        "C01" => p_parse::c01(&run),
        "C02" => p_write::c02(&run),
        "C03" => p_write::c03(&run),
        "C04" => p_order::c04(&run),
        "C05" => p_parse::c05(&run),
        "C06" => p_misc::c06(&run),
        "C07" => p_res::c07(&run),
        "C08" => p_parse::c08(&run),
        "C12" => p_misc::c12(&run),
        "C23" => p_misc::c23(&run),
        "C24" => p_misc::c24(&run),
        x => {
            eprintln!("unknown property {}", x);
            std::process::exit(3);
        }
    }
    run.finish();
}

/// All nodes of a structural comparison, without the target's own Eq.
pub fn same(v: &Value, want: &RV) -> bool {
    match from_value(v) {
        Some(x) => x == *want,
        None => false,
    }
}

pub fn show_v(v: &Value) -> String {
    match from_value(v) {
        Some(x) => show(&x),
        None => cut(format!("{:?}", v)),
    }
}

pub fn show_r<E: std::fmt::Debug>(r: &Result<Result<Value, E>, String>) -> String {
    match r {
        Ok(Ok(v)) => format!("Ok({})", show_v(v)),
        Ok(Err(e)) => format!("Err({:?})", e),
        Err(p) => format!("PANIC({})", p),
    }
}

/// Permute the entries of every map, at every depth, keys included.
pub fn scramble(v: &RV, r: &mut Rng) -> RV {
    match v {
        A(a) => A(a.iter().map(|x| scramble(x, r)).collect()),
        M(m) => {
            let mut m: Vec<(RV, RV)> = m
                .iter()
                .map(|(k, x)| (scramble(k, r), scramble(x, r)))
                .collect();
            match r.below(4) {
                0 => m.reverse(),
                1 => {
                    if m.len() > 1 {
                        let i = r.below(m.len());
                        let x = m.remove(i);
                        m.push(x);
                    }
                }
                _ => r.shuffle(&mut m),
            }
            M(m)
        }
        G(t, x) => G(*t, Box::new(scramble(x, r))),
        x => x.clone(),
    }
}

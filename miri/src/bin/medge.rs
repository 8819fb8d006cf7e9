//! Values at the edges of the built-in types, decoded as each of them.
use oasis_cbor::{SimpleValue, Value};
use std::cell::RefCell;
use vharness::model::*;
use vharness::rng::Rng;
use vmiri::*;

/// Hash maps hold their entries in any order.
fn norm(v: &Value, o: &mut Out) {
    match from_value(v).and_then(|v| canon(&v)) {
        Some(v) => o.put(v),
        None => o.put("not canonical"),
    }
}

/// Values at the edges of the built-in types, each decoded as every one of them.
fn edges() -> Vec<RV> {
    let mut l = vec![];
    let ints = [
        0u64, 1, 9, 23, 24, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff,
        0x1_0000, 0x10_ffff, 0x11_0000, 0x1f_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_d800, 0xffff_ffff, 1 << 32, (1 << 32) + 0x41,
        (1 << 32) + 0xd800, (1 << 63) - 1, 1 << 63, u64::MAX,
    ];
    for n in ints {
        l.push(U(n));
    }
    for n in [0, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0x7fff_ffff, 0x8000_0000, (1 << 63) - 1] {
        l.push(N(n));
    }
    for n in [0usize, 1, 2, 3, 4, 5, 15, 16, 17] {
        l.push(B((0..n).map(|i| 0x7f + i as u8).collect()));
    }
    for t in ["", "a", "\u{e9}", "\u{1f600}", "abcd", "\0", "0123456789abcdefg"] {
        l.push(T(t.into()));
    }
    for n in 0..5 {
        l.push(A((0..n).map(|i| U(0x40 + i)).collect()));
        l.push(A((0..n).map(|i| T(format!("item{}", i))).collect()));
        l.push(A((0..n).map(|i| if i == 2 { S(22) } else { T("item".into()) }).collect()));
        l.push(A((0..n).map(|i| B(vec![i as u8; 4])).collect()));
        l.push(M((0..n).map(|i| (U(0xd7fe + i), T(format!("item{}", i)))).collect()));
        l.push(M((0..n).map(|i| (T(format!("item{}", i)), if i == 2 { S(22) } else { U(i) })).collect()));
    }
    l.push(A(vec![T("k".into()), B(vec![1, 2]), U(3)]));
    l.push(A(vec![A(vec![T("k".into())]), A(vec![T("l".into()), T("m".into())])]));
    for n in 20..24 {
        l.push(S(n));
    }
    l.push(G(2, Box::new(B(vec![1; 9]))));
    l
}

const EDGE: usize = 6;

fn gen_edges(_: &mut Rng) -> (u64, Vec<u8>) {
    thread_local!(static AT: RefCell<usize> = RefCell::new(0));
    let k = AT.with(|a| {
        let mut a = a.borrow_mut();
        *a += 1;
        *a - 1
    });
    let l = edges();
    let n = l.len().div_ceil(EDGE);
    (k as u64, raw(&A(l.chunks(EDGE).nth(k % n).unwrap().to_vec())))
}

fn one<T: oasis_cbor::Decode + oasis_cbor::Encode + std::fmt::Debug>(v: &Value, o: &mut Out) {
    let x = o.calm(|| (T::try_from_cbor_value(v.clone()), T::try_from_cbor_value_default(v.clone())));
    if let Some((x, y)) = x {
        o.put(x.is_ok());
        o.put(y.is_ok());
        for x in [x, y] {
            match x {
                Ok(x) => {
                    let w = o.calm(|| x.into_cbor_value());
                    if let Some(w) = w {
                        norm(&w, o);
                    }
                }
                Err(e) => o.dbg(e),
            }
        }
    }
}

/// Constructors and accessors that take a number.
fn simple(v: &Value, o: &mut Out) {
    if let Value::Unsigned(n) = v {
        for n in [*n, n & 0xff, n & 31] {
            let s = o.calm(|| SimpleValue::from_integer(n));
            if let Some(Some(s)) = s {
                o.val(&Value::Simple(s));
            }
        }
        for i in [*n as i64, (*n as i64).wrapping_neg()] {
            let x = o.calm(|| Value::integer(i));
            if let Some(x) = x {
                o.val(&x);
            }
        }
    }
    o.put(v.type_label());
}

fn bridged<T: serde::de::DeserializeOwned + serde::Serialize>(v: &Value, o: &mut Out) {
    let x = o.calm(|| oasis_cbor::serde::from_value::<T>(v.clone()).map_err(|e| e.to_string().len()));
    o.res(x, |o, x| {
        let w = o.calm(|| oasis_cbor::serde::to_value(&x));
        if let Some(Ok(w)) = w {
            norm(&w, o);
        }
        let w = o.calm(|| oasis_cbor::serde::to_vec(&x));
        if let Some(Ok(w)) = w {
            o.put(w.len());
        }
    });
}

fn edge_serde(_: u64, b: &[u8], o: &mut Out) {
    use std::collections::*;
    let l = match oasis_cbor::reader::read_nested_non_strict(b, Some(64)) {
        Ok(Value::Array(l)) => l,
        x => return o.dbg(x),
    };
    macro_rules! all {
        ($v:expr, $($t:ty),*) => { $(bridged::<$t>($v, o);)* };
    }
    for v in &l {
        all!(
            v, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, String, char, (), serde_bytes::ByteBuf, Vec<u16>, Vec<char>,
            Vec<String>, [u8; 0], [u8; 4], [u16; 3], [String; 2], Option<char>, Option<String>, BTreeMap<char, String>,
            BTreeMap<String, u8>, BTreeSet<String>, (String, serde_bytes::ByteBuf, u8), (char, char), std::num::NonZeroU8,
            std::net::Ipv4Addr, Result<char, String>, std::time::Duration
        );
    }
}

fn edge(_: u64, b: &[u8], o: &mut Out) {
    use std::collections::*;
    let l = match oasis_cbor::reader::read_nested_non_strict(b, Some(64)) {
        Ok(Value::Array(l)) => l,
        x => return o.dbg(x),
    };
    macro_rules! all {
        ($v:expr, $($t:ty),*) => { $(one::<$t>($v, o);)* };
    }
    for v in &l {
        simple(v, o);
        all!(
            v, u8, u16, u32, u64, i8, i16, i32, i64, u128, bool, String, char, (), Value, Vec<u8>, Vec<u16>, Vec<char>, Vec<String>,
            Vec<Vec<String>>, [u8; 0], [u8; 4], [u8; 16], [u16; 3], [String; 2], [String; 4], [Vec<u8>; 3], [char; 2], Option<char>,
            Option<String>, Option<[String; 3]>, BTreeMap<char, String>, BTreeMap<String, u8>, BTreeSet<String>, HashMap<char, String>,
            HashMap<String, u8>, HashSet<String>, HashSet<char>, (String, Vec<u8>, u8), (char, char)
        );
    }
}

fn main() {
    // At the usual four hundred percent, all of the edges.
    let n = (edges().len().div_ceil(EDGE) as u64).div_ceil(4);
    let s = |name, n, gen, run| Stage { name, n, gen, run };
    vmiri::main(&[s("edges", n, gen_edges, edge), s("serde_edges", n, gen_edges, edge_serde)])
}

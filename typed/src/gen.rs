//! Random values of a shape.
use crate::dv::*;
use crate::refm::*;
use vharness::gen;
use vharness::model::*;
use vharness::rng::Rng;

pub struct Budget {
    pub nodes: isize,
    pub skipped: bool,
}

pub fn value(s: &Sh, r: &mut Rng) -> DV {
    let mut b = Budget {
        nodes: *r.pick(&[4isize, 12, 12, 30, 30, 80, 300]),
        skipped: false,
    };
    dv(s, r, &mut b, 0)
}

pub fn value_small(s: &Sh, r: &mut Rng) -> DV {
    let mut b = Budget {
        nodes: 10,
        skipped: false,
    };
    dv(s, r, &mut b, 0)
}

/// Also skipped variants, which have no encoding of their own.
pub fn value_with_skipped(s: &Sh, r: &mut Rng) -> DV {
    let mut b = Budget {
        nodes: *r.pick(&[4isize, 12, 30, 80]),
        skipped: true,
    };
    dv(s, r, &mut b, 0)
}

fn count(r: &mut Rng, b: &mut Budget) -> usize {
    if b.nodes <= 0 {
        return 0;
    }
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 6, 23, 24, 25, 40]);
    n.min(b.nodes as usize)
}

pub fn dv(s: &Sh, r: &mut Rng, b: &mut Budget, depth: usize) -> DV {
    b.nodes -= 1;
    match s {
        Sh::Uint(w) => {
            let n = gen::int(r);
            DV::U(uint(n, *w, r) as u128)
        }
        Sh::Int(w) => {
            let n = gen::int(r);
            let m = uint(n, *w - 1, r);
            DV::I(if r.bool() { m as i64 } else { -1 - m as i64 })
        }
        Sh::U128 => {
            let n = ((r.u64() as u128) << 64) | gen::int(r) as u128;
            DV::U(match r.below(6) {
                0 => gen::int(r) as u128,
                1 => 0,
                2 => u128::MAX >> r.below(128),
                3 => 1u128 << r.below(128),
                _ => n >> r.below(128),
            })
        }
        Sh::Bool => DV::B(r.bool()),
        Sh::Char => DV::C(match r.below(6) {
            0 => '\0',
            1 => *r.pick(&['\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{17}', '\u{18}', '\u{ff}', '\u{100}', '\u{ffff}', '\u{10000}']),
            _ => gen::ch(r),
        }),
        Sh::Str => DV::S(match r.below(24) {
            0..=7 => gen::text(r, 3),
            8 if b.nodes > 0 => {
                let n = long_len(r);
                b.nodes -= n as isize / 16;
                gen::text_n(r, n)
            }
            _ => gen::text(r, 30),
        }),
        Sh::Val => {
            let mut n = 8;
            let mut v = gen::value(r, 3, &mut n);
            if v == UNDEF {
                v = NULL;
            }
            // Held canonically, so that a round trip gives back an equal value.
            DV::V(OrdRV(canon(&v).unwrap_or(v)))
        }
        Sh::Unit => DV::Unit,
        Sh::Bytes => {
            if b.nodes > 0 && r.one_in(24) {
                let n = long_len(r);
                b.nodes -= n as isize / 16;
                gen::bytes(r, n).dv()
            } else {
                gen::bstr(r, 30).dv()
            }
        }
        Sh::BytesN(n) => {
            let v = gen::bytes(r, *n);
            v.dv()
        }
        Sh::Opt(t) => {
            if r.one_in(3) {
                DV::No
            } else {
                DV::Some(Box::new(dv(t, r, b, depth + 1)))
            }
        }
        Sh::Vec(t) => {
            let n = if depth > 40 { 0 } else { count(r, b) };
            DV::Q((0..n).map(|_| dv(t, r, b, depth + 1)).collect())
        }
        Sh::Arr(t, n) => DV::Q((0..*n).map(|_| dv(t, r, b, depth + 1)).collect()),
        Sh::Tup(t) => DV::Q(t.iter().map(|t| dv(t, r, b, depth + 1)).collect()),
        Sh::Set(t, _) => {
            let n = count(r, b);
            let mut v: Vec<DV> = (0..n).map(|_| dv(t, r, b, depth + 1)).collect();
            alike(v.iter_mut().collect(), t, r);
            v.sort();
            v.dedup();
            DV::Q(v)
        }
        Sh::Map(k, v, _) => {
            let n = if depth > 40 { 0 } else { count(r, b) };
            let mut m: Vec<(DV, DV)> = (0..n)
                .map(|_| (dv(k, r, b, depth + 1), dv(v, r, b, depth + 1)))
                .collect();
            alike(m.iter_mut().map(|x| &mut x.0).collect(), k, r);
            m.sort();
            m.dedup_by(|a, b| a.0 == b.0);
            DV::M(m)
        }
        Sh::Def(n) => match &def(*n).kind {
            Kind::Struct(x) => DV::R(fields(x, r, b, depth)),
            Kind::Enum { vars, .. } => {
                let mut i = r.below(vars.len());
                if vars[i].skip && !(b.skipped && r.bool()) {
                    let ok: Vec<usize> = (0..vars.len()).filter(|i| !vars[*i].skip).collect();
                    if !ok.is_empty() {
                        i = *r.pick(&ok);
                    }
                }
                DV::E(i, fields(&vars[i].body, r, b, depth))
            }
        },
    }
}

fn long_len(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => r.range(30, 100),
        1 => *r.pick(&[127usize, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1024]),
        _ => r.range(30, 700),
    }
}

/// Once in a while, strings that share a long beginning (or, of fixed length, differ at the end).
fn alike(items: Vec<&mut DV>, s: &Sh, r: &mut Rng) {
    if items.len() < 2 || !r.one_in(4) {
        return;
    }
    let n = *r.pick(&[1usize, 7, 8, 15, 16, 22, 23, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256]);
    match s {
        Sh::Str => {
            let p = gen::text_n(r, n);
            for x in items {
                *x = DV::S(format!("{}{}", p, gen::text(r, 3)));
            }
        }
        Sh::Bytes => {
            let p = gen::bytes(r, n);
            for x in items {
                let mut v = p.clone();
                v.extend(gen::bstr(r, 3));
                *x = v.dv();
            }
        }
        Sh::BytesN(k) if *k > 0 => {
            let p = gen::bytes(r, *k);
            for x in items {
                let mut v = p.clone();
                v[k - 1 - r.below(*k.min(&3))] = r.u64() as u8;
                *x = v.dv();
            }
        }
        _ => {}
    }
}

fn uint(n: u64, w: u32, r: &mut Rng) -> u64 {
    if w >= 64 {
        return n;
    }
    let max = (1u64 << w) - 1;
    if n <= max {
        n
    } else {
        match r.below(3) {
            0 => max,
            1 => max - (n & 3).min(max),
            _ => n & max,
        }
    }
}

fn fields(x: &Body, r: &mut Rng, b: &mut Budget, depth: usize) -> Vec<DV> {
    // Sometimes nearly all of what can be left out is.
    let sparse = r.one_in(5);
    x.fields
        .iter()
        .map(|f| {
            // Often the empty value: it is what optional fields leave out.
            if f.optional && (r.one_in(3) || sparse && !r.one_in(6)) {
                if let Some(d) = f.default {
                    return d();
                }
            }
            dv(&f.sh, r, b, depth + 1)
        })
        .collect()
}

//! What serde's own and derived visitors make of an item, for the types of the zoo. Where serde's
//! visitors are lenient (texts from byte strings, fields by index, ..) nothing is specified.
use vharness::model::*;
use vtyped::dv::*;
use vtyped::refm::def;

#[derive(Clone, PartialEq, Debug)]
pub enum Want {
    Ok(DV),
    Err,
    Any,
}
use Want::Any;

fn parts(it: impl Iterator<Item = Want>) -> Result<Vec<DV>, Want> {
    let mut out = vec![];
    let mut any = false;
    let mut err = false;
    for w in it {
        match w {
            Want::Ok(x) => out.push(x),
            Want::Err => err = true,
            Any => any = true,
        }
    }
    if err {
        Err(Want::Err)
    } else if any {
        Err(Any)
    } else {
        Ok(out)
    }
}

fn all(it: impl Iterator<Item = Want>, f: impl FnOnce(Vec<DV>) -> DV) -> Want {
    match parts(it) {
        Ok(v) => Want::Ok(f(v)),
        Err(w) => w,
    }
}

fn has_tag(v: &RV) -> bool {
    match v {
        G(_, _) => true,
        A(a) => a.iter().any(has_tag),
        M(m) => m.iter().any(|e| has_tag(&e.0) || has_tag(&e.1)),
        _ => false,
    }
}

pub fn want(s: &Sh, v: &RV) -> Want {
    match (s, v) {
        (Sh::Uint(w), U(n)) if *w == 64 || *n >> *w == 0 => Want::Ok(DV::U(*n as u128)),
        (Sh::Int(w), U(n)) if *n >> (*w - 1) == 0 => Want::Ok(DV::I(*n as i64)),
        (Sh::Int(w), N(n)) if *n >> (*w - 1) == 0 => Want::Ok(DV::I(-1 - *n as i64)),
        (Sh::U128, B(b)) if b.len() <= 16 => Want::Ok(DV::U(b.iter().fold(0, |a, x| a << 8 | *x as u128))),
        (Sh::Bool, S(b @ (20 | 21))) => Want::Ok(DV::B(*b == 21)),
        (Sh::Char, U(n)) => match u32::try_from(*n).ok().and_then(char::from_u32) {
            Some(c) => Want::Ok(DV::C(c)),
            None => Want::Err,
        },
        (Sh::Str, T(s)) => Want::Ok(DV::S(s.clone())),
        // serde's String takes bytes that are valid text, serde_bytes texts and arrays of numbers.
        (Sh::Str, B(_)) | (Sh::Bytes, T(_) | A(_)) => Any,
        (Sh::Bytes, B(b)) => Want::Ok(b.dv()),
        (Sh::Unit, S(22)) => Want::Ok(DV::Unit),
        (Sh::Unit, S(23)) => Any,
        (Sh::Opt(_), S(22)) => Want::Ok(DV::No),
        (Sh::Opt(t), v) => match want(t, v) {
            Want::Ok(d) => Want::Ok(DV::Some(Box::new(d))),
            e => e,
        },
        (Sh::Vec(t), A(a)) => all(a.iter().map(|x| want(t, x)), DV::Q),
        (Sh::Set(t, _), A(a)) => all(a.iter().map(|x| want(t, x)), |mut v| {
            v.sort();
            v.dedup();
            DV::Q(v)
        }),
        (Sh::Arr(t, n), A(a)) if a.len() == *n => all(a.iter().map(|x| want(t, x)), DV::Q),
        (Sh::Tup(t), A(a)) if a.len() == t.len() => all(t.iter().zip(a).map(|(t, x)| want(t, x)), DV::Q),
        (Sh::Map(k, x, _), M(m)) => {
            let (ks, vs) = (parts(m.iter().map(|e| want(k, &e.0))), parts(m.iter().map(|e| want(x, &e.1))));
            match (ks, vs) {
                (Ok(k), Ok(v)) => {
                    let mut p: Vec<(DV, DV)> = k.into_iter().zip(v).collect();
                    p.sort();
                    let n = p.len();
                    p.dedup_by(|a, b| a.0 == b.0);
                    if n == p.len() {
                        Want::Ok(DV::M(p))
                    } else {
                        Any
                    }
                }
                (Err(Want::Err), _) | (_, Err(Want::Err)) => Want::Err,
                _ => Any,
            }
        }
        (Sh::Def(n), v) => want_def(*n, v),
        (Sh::Val | Sh::BytesN(_), _) => Any,
        _ => Want::Err,
    }
}

fn want_def(n: usize, v: &RV) -> Want {
    match &def(n).kind {
        Kind::Struct(b) => body(b, v, DV::R),
        Kind::Enum { vars, .. } => {
            let (k, x) = match v {
                T(_) => (v, None),
                M(m) if m.len() == 1 => (&m[0].0, Some(&m[0].1)),
                _ => return Want::Err,
            };
            match k {
                T(_) => {}
                // Variants by index or by the bytes of their name are serde's affair.
                U(_) | B(_) => return Any,
                _ => return Want::Err,
            }
            let i = match vars.iter().position(|x| x.key == *k) {
                Some(i) => i,
                None => return Want::Err,
            };
            let b = &vars[i].body;
            match (b.form, x) {
                (Form::Unit, None) => Want::Ok(DV::E(i, vec![])),
                // {"A": null} stands for "A" as well.
                (Form::Unit, Some(S(22 | 23))) => Any,
                (Form::Unit, _) => Want::Err,
                (Form::Inner, None) => match want(&b.fields[0].sh, &NULL) {
                    Want::Err => Want::Err,
                    _ => Any,
                },
                (_, None) => Want::Err,
                (_, Some(x)) => body(b, x, |f| DV::E(i, f)),
            }
        }
    }
}

fn body(b: &Body, v: &RV, f: impl FnOnce(Vec<DV>) -> DV) -> Want {
    match (b.form, v) {
        (Form::Unit, S(22)) => Want::Ok(f(vec![])),
        (Form::Unit, S(23)) => Any,
        (Form::Inner, v) => all(std::iter::once(want(&b.fields[0].sh, v)), f),
        (Form::Array, A(a)) if a.len() == b.fields.len() => {
            all(b.fields.iter().zip(a).map(|(t, x)| want(&t.sh, x)), f)
        }
        (Form::Map, M(m)) => {
            let mut odd = false;
            for (i, (k, x)) in m.iter().enumerate() {
                match k {
                    T(_) => {
                        if b.fields.iter().any(|t| t.key == *k) {
                            if m[..i].iter().any(|e| e.0 == *k) {
                                return Want::Err;
                            }
                        } else if has_tag(x) {
                            // An ignored value of a kind the bridge has no representation for.
                            odd = true;
                        }
                    }
                    U(_) | B(_) => odd = true,
                    _ => return Want::Err,
                }
            }
            let it = b.fields.iter().map(|t| match m.iter().find(|e| e.0 == t.key) {
                Some(e) => want(&t.sh, &e.1),
                // Found by index, perhaps.
                None if odd => Any,
                None => match t.sh {
                    Sh::Opt(_) => Want::Ok(DV::No),
                    _ => Want::Err,
                },
            });
            match all(it, f) {
                Want::Ok(_) if odd => Any,
                w => w,
            }
        }
        _ => Want::Err,
    }
}

//! Changes to an encoding at places known to matter for the type behind it.
use crate::dv::*;
use crate::refm::*;
use vharness::gen;
use vharness::model::*;
use vharness::rng::Rng;

pub fn at<'a>(v: &'a mut RV, path: &[u32]) -> Option<&'a mut RV> {
    let mut v = v;
    for &i in path {
        let i = i as usize;
        v = match v {
            A(a) => a.get_mut(i)?,
            M(m) => {
                let e = m.get_mut(i / 2)?;
                if i % 2 == 0 {
                    &mut e.0
                } else {
                    &mut e.1
                }
            }
            G(_, x) if i == 0 => x,
            _ => return None,
        };
    }
    Some(v)
}

fn shape(n: &Note) -> Option<&Sh> {
    match &n.what {
        What::At(s) | What::Slot(s) => Some(s),
        _ => None,
    }
}

pub fn is_scalar(s: &Sh) -> bool {
    matches!(
        s,
        Sh::Uint(_) | Sh::Int(_) | Sh::U128 | Sh::Bool | Sh::Char | Sh::Str | Sh::Bytes | Sh::BytesN(_) | Sh::Unit
    )
}

/// An integer near a boundary of the machine types.
pub fn edge_int(r: &mut Rng) -> RV {
    let k = *r.pick(&[5u32, 7, 8, 15, 16, 31, 32, 63, 64]);
    let b = if k == 64 { u64::MAX } else { 1u64 << k };
    let n = match r.below(6) {
        0 => b.wrapping_sub(2),
        1 => b.wrapping_sub(1),
        2 => b,
        3 => b.wrapping_add(1),
        4 => gen::int(r),
        _ => *r.pick(&[0u64, 1, 23, 24, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x1_0000_0041, u64::MAX]),
    };
    if r.one_in(3) {
        N(n)
    } else {
        U(n)
    }
}

/// A scalar to put in place of another, close to what is expected there.
/// An item that says the same in another form.
fn like(old: &RV, r: &mut Rng) -> RV {
    let n = match old {
        U(n) | N(n) => *n,
        B(b) => b.iter().take(8).fold(0, |n, x| n << 8 | *x as u64),
        T(t) => t.parse().unwrap_or(t.len() as u64),
        _ => return old.clone(),
    };
    match r.below(7) {
        0 => T(n.to_string()),
        1 => B(n.to_be_bytes().to_vec()),
        2 => B(n.to_be_bytes()[n.leading_zeros() as usize / 8..].to_vec()),
        3 => {
            let mut b = n.to_be_bytes().to_vec();
            b.splice(0..0, vec![0; r.below(12)]);
            B(b)
        }
        4 => U(n),
        5 => A(vec![U(0), U(n)]),
        _ => old.clone(),
    }
}

pub fn rival(s: &Sh, old: &RV, r: &mut Rng) -> RV {
    if r.one_in(6) {
        return gen::scalar(r);
    }
    if r.one_in(12) {
        let x = like(old, r);
        return match r.below(4) {
            0 => x,
            1 => G(r.below(7) as u64, Box::new(x)),
            2 => G(2 + r.below(2) as u64, Box::new(x)),
            _ => A(vec![x]),
        };
    }
    if r.one_in(12) {
        return match r.below(5) {
            0 => A(vec![old.clone()]),
            1 => G(gen::tag_no(r), Box::new(like(old, r))),
            2 => M(vec![(U(0), old.clone())]),
            3 => A(vec![]),
            _ => M(vec![]),
        };
    }
    match s {
        Sh::Uint(_) | Sh::Int(_) | Sh::Char => edge_int(r),
        Sh::U128 => {
            let n = *r.pick(&[0usize, 1, 7, 8, 9, 15, 16, 17, 18, 32]);
            let mut b = gen::bytes(r, n);
            if r.bool() {
                for x in b.iter_mut().take(3) {
                    *x = 0;
                }
            }
            match r.below(8) {
                0 => T(String::from_utf8_lossy(&b).into_owned()),
                1 => U(gen::int(r)),
                2 => G(2, Box::new(B(b))),
                _ => B(b),
            }
        }
        Sh::Bool => match r.below(4) {
            0 => U(r.below(2) as u64),
            1 => S(20 + r.below(4) as u8),
            _ => S(20 + r.below(2) as u8),
        },
        Sh::Str => match old {
            T(t) if r.bool() => B(t.clone().into_bytes()),
            _ => T(gen::text(r, 20)),
        },
        Sh::Bytes | Sh::BytesN(_) => match (r.below(4), old) {
            (0, B(b)) => A(b.iter().map(|x| U(*x as u64)).collect()),
            (1, B(b)) => T(String::from_utf8_lossy(b).into_owned()),
            (2, B(b)) => {
                let mut b = b.clone();
                if r.bool() {
                    b.push(0);
                } else {
                    b.pop();
                }
                B(b)
            }
            _ => B(gen::bstr(r, 40)),
        },
        _ => S(20 + r.below(4) as u8),
    }
}

pub fn pick_note<'a>(notes: &'a [Note], r: &mut Rng, f: impl Fn(&Note) -> bool) -> Option<&'a Note> {
    let v: Vec<&Note> = notes.iter().filter(|n| f(n)).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[r.below(v.len())])
    }
}

/// Replace the content of one scalar position.
pub fn scalar(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let n = match pick_note(notes, r, |n| shape(n).is_some_and(is_scalar)) {
        Some(n) => n,
        None => return false,
    };
    let s = shape(n).unwrap();
    match at(v, &n.path) {
        Some(x) => {
            *x = rival(s, x, r);
            true
        }
        None => false,
    }
}

fn any_small(r: &mut Rng) -> RV {
    match r.below(8) {
        0 => NULL,
        1 => UNDEF,
        2 => A(vec![]),
        3 => M(vec![]),
        4 => U(r.below(4) as u64),
        5 => A(vec![U(1), U(2)]),
        _ => gen::scalar_small(r),
    }
}

/// Change the shape of one container position.
pub fn structure(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let n = match pick_note(notes, r, |n| shape(n).is_some_and(|s| !is_scalar(s) && *s != Sh::Val)) {
        Some(n) => n,
        None => return false,
    };
    let s = shape(n).unwrap().clone();
    let x = match at(v, &n.path) {
        Some(x) => x,
        None => return false,
    };
    container(x, &s, r);
    true
}

pub fn container(x: &mut RV, s: &Sh, r: &mut Rng) {
    let elem = match s {
        Sh::Vec(t) | Sh::Arr(t, _) | Sh::Set(t, _) | Sh::Opt(t) => Some((**t).clone()),
        Sh::Tup(t) => Some(r.pick(t).clone()),
        Sh::Map(_, v, _) => Some((**v).clone()),
        _ => None,
    };
    let fresh = |r: &mut Rng| match &elem {
        Some(t) if r.below(4) > 0 => enc(t, &crate::gen::value_small(t, r)),
        _ => any_small(r),
    };
    match x {
        A(a) => match r.below(9) {
            0 => {
                a.pop();
            }
            1 => {
                if !a.is_empty() {
                    let i = r.below(a.len());
                    a.remove(i);
                }
            }
            2 => {
                let e = fresh(r);
                a.push(e);
            }
            3 => {
                let e = fresh(r);
                let i = r.below(a.len() + 1);
                a.insert(i, e);
            }
            4 => {
                if a.len() > 1 {
                    let (i, j) = (r.below(a.len()), r.below(a.len()));
                    a.swap(i, j);
                }
            }
            5 => {
                if !a.is_empty() {
                    let i = r.below(a.len());
                    a[i] = if r.bool() { NULL } else { UNDEF };
                }
            }
            6 => {
                // An array turned into a map.
                *x = M(a.iter().enumerate().map(|(i, e)| (U(i as u64), e.clone())).collect())
            }
            7 => {
                for _ in 0..r.below(5) {
                    let e = a.last().cloned().unwrap_or(NULL);
                    a.push(e);
                }
            }
            _ => *x = any_small(r),
        },
        M(m) => match r.below(8) {
            0 => {
                m.pop();
            }
            1 => {
                let e = fresh(r);
                m.push((gen::scalar_small(r), e));
            }
            2 => {
                if !m.is_empty() {
                    let i = r.below(m.len());
                    m[i].1 = if r.bool() { NULL } else { UNDEF };
                }
            }
            3 => {
                // A map turned into an array of pairs, or flattened.
                *x = if r.bool() {
                    A(m.iter().map(|(k, v)| A(vec![k.clone(), v.clone()])).collect())
                } else {
                    A(m.iter().flat_map(|(k, v)| [k.clone(), v.clone()]).collect())
                }
            }
            4 => {
                if m.len() > 1 {
                    let (i, j) = (r.below(m.len()), r.below(m.len()));
                    let t = m[i].1.clone();
                    m[i].1 = m[j].1.clone();
                    m[j].1 = t;
                }
            }
            5 => {
                if !m.is_empty() {
                    let i = r.below(m.len());
                    m[i].0 = gen::scalar_small(r);
                }
            }
            6 => r.shuffle(m),
            _ => *x = any_small(r),
        },
        x => {
            *x = match r.below(4) {
                0 => A(vec![x.clone()]),
                1 => G(1, Box::new(x.clone())),
                _ => any_small(r),
            }
        }
    }
}

/// The bodies of derived structs and variants present in the encoding.
fn pick_body<'a>(notes: &'a [Note], r: &mut Rng) -> Option<(&'a Note, &'static Body)> {
    let n = pick_note(notes, r, |n| matches!(n.what, What::Body(_, _)))?;
    match n.what {
        What::Body(d, v) => Some((n, body_of(d, v))),
        _ => None,
    }
}

pub fn body_of(d: usize, v: Option<usize>) -> &'static Body {
    match (&def(d).kind, v) {
        (Kind::Struct(b), None) => b,
        (Kind::Enum { vars, .. }, Some(i)) => &vars[i].body,
        _ => panic!("harness: body"),
    }
}

/// A key close to one of the keys in use.
pub fn near_key(k: &RV, r: &mut Rng) -> RV {
    match k {
        T(s) => match r.below(12) {
            9 => T(format!("{}{}", s, r.pick(&["\u{feff}", "\0\0", " ", "\n", "\r", "\t", "\"", "'", "_", "-", "\u{200b}", "\u{301}"]))),
            10 => T(format!("{}{}", r.pick(&["\u{feff}", "\0", " ", "\n", "r#", "\"", "'", "_", "-", "\u{200b}"]), s)),
            11 => {
                // One more or less of an underscore, and other ways of writing names.
                match r.below(4) {
                    0 => T(s.replace('_', "-")),
                    1 => T(s.replace('_', "")),
                    2 => T(s.replace('-', "_")),
                    _ => T(s.to_lowercase()),
                }
            }
            0 => T(format!("{}a", s)),
            1 => T(format!("{}\0", s)),
            2 => {
                let mut s = s.clone();
                s.pop();
                T(s)
            }
            3 => T(s.to_uppercase()),
            4 => B(s.clone().into_bytes()),
            5 => {
                let mut c: Vec<char> = s.chars().collect();
                if let Some(x) = c.last_mut() {
                    *x = char::from_u32((*x as u32).wrapping_add(if r.bool() { 1 } else { u32::MAX })).unwrap_or('~');
                }
                T(c.into_iter().collect())
            }
            6 => G(0, Box::new(k.clone())),
            7 => A(vec![k.clone()]),
            _ => T(s.chars().rev().collect()),
        },
        U(n) => match r.below(8) {
            0 => U(n.wrapping_add(1)),
            1 => U(n.wrapping_sub(1)),
            2 => N(*n),
            3 => T(n.to_string()),
            4 => B(vec![*n as u8]),
            5 => U(n ^ (1 << r.below(64))),
            6 => G(*n, Box::new(k.clone())),
            _ => U(n << 8),
        },
        k => G(1, Box::new(k.clone())),
    }
}

pub fn foreign_key(b: &Body, r: &mut Rng) -> RV {
    match r.below(10) {
        0..=4 if !b.fields.is_empty() => {
            let f = r.pick(&b.fields);
            if r.one_in(30) {
                // A field's name and a lot more.
                if let (T(s), T(x)) = (&f.key, gen::long_string(r)) {
                    return T(format!("{}{}", s, x));
                }
            }
            near_key(&f.key, r)
        }
        5 if r.one_in(4) => gen::long_string(r),
        5 => {
            // Anything that sorts before or after every key.
            match r.below(8) {
                0 => U(0),
                1 => N(r.below(3) as u64),
                2 => B(vec![]),
                3 => T(String::new()),
                4 => S(20 + r.below(4) as u8),
                5 => G(u64::MAX, Box::new(U(0))),
                6 => M(vec![]),
                _ => A(vec![]),
            }
        }
        6 => {
            // A skipped field's own name.
            match b.fields.iter().find(|f| f.skip) {
                Some(f) => f.key.clone(),
                None => gen::scalar_small(r),
            }
        }
        7 => {
            // A name used somewhere else.
            let d = &defs()[r.below(defs().len())];
            let body = match &d.kind {
                Kind::Struct(b) => b,
                Kind::Enum { vars, .. } => &r.pick(vars).body,
            };
            if body.fields.is_empty() {
                T(d.name.into())
            } else {
                r.pick(&body.fields).key.clone()
            }
        }
        8 => {
            if let M(m) = gen::map(r, 1, 2, &mut 10) {
                m.first().map(|e| e.0.clone()).unwrap_or(U(7))
            } else {
                U(9)
            }
        }
        _ => gen::scalar_small(r),
    }
}

/// Add entries that are no fields to one body; with `n` at most that many.
pub fn unknown(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let (n, b) = match pick_body(notes, r) {
        Some(x) => x,
        None => return false,
    };
    let x = match at(v, &n.path) {
        Some(x) => x,
        None => return false,
    };
    match x {
        M(m) => {
            let many = *r.pick(&[1usize, 1, 1, 2, 3, 5]);
            for _ in 0..many {
                let k = foreign_key(b, r);
                if m.iter().any(|e| e.0 == k) {
                    continue;
                }
                let val = match r.below(3) {
                    0 => m.first().map(|e| e.1.clone()).unwrap_or(U(1)),
                    _ => any_small(r),
                };
                let i = r.below(m.len() + 1);
                m.insert(i, (k, val));
            }
            true
        }
        A(a) => {
            for _ in 0..*r.pick(&[1usize, 1, 2, 4]) {
                let e = any_small(r);
                a.push(e);
            }
            true
        }
        x => {
            *x = any_small(r);
            true
        }
    }
}

/// Drop, null or undefine some fields.
pub fn missing(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    // Null at any slot.
    if r.one_in(4) {
        if let Some(n) = pick_note(notes, r, |n| matches!(n.what, What::Slot(_))) {
            if let Some(x) = at(v, &n.path) {
                *x = if r.bool() { NULL } else { UNDEF };
                return true;
            }
        }
        return false;
    }
    let (n, b) = match pick_body(notes, r) {
        Some(x) => x,
        None => return false,
    };
    let x = match at(v, &n.path) {
        Some(x) => x,
        None => return false,
    };
    match x {
        M(m) => {
            let p = *r.pick(&[2usize, 3, 100]);
            let one = r.below(m.len().max(1));
            let mut out = vec![];
            for (i, (k, e)) in std::mem::take(m).into_iter().enumerate() {
                let field = b.fields.iter().any(|f| f.key == k);
                if field && (i == one || r.one_in(p)) {
                    match r.below(3) {
                        0 => continue,
                        1 => out.push((k, NULL)),
                        _ => out.push((k, UNDEF)),
                    }
                } else {
                    out.push((k, e));
                }
            }
            // Some that were left out may also come as explicit nulls.
            for f in &b.fields {
                if !f.skip && r.one_in(4) && !out.iter().any(|e| e.0 == f.key) {
                    out.push((f.key.clone(), if r.bool() { NULL } else { UNDEF }));
                }
            }
            *m = out;
            true
        }
        A(a) => {
            match r.below(3) {
                0 => {
                    a.pop();
                }
                _ => {
                    if a.is_empty() {
                        return false;
                    }
                    let i = r.below(a.len());
                    a[i] = if r.bool() { NULL } else { UNDEF };
                }
            }
            true
        }
        _ => false,
    }
}

/// Confuse the variants of one enum.
pub fn variants(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let n = match pick_note(notes, r, |n| matches!(n.what, What::Enum(_, _))) {
        Some(n) => n,
        None => return false,
    };
    let (d, me) = match n.what {
        What::Enum(d, i) => (d, i),
        _ => return false,
    };
    let (vars, tag) = match &def(d).kind {
        Kind::Enum { vars, tag, .. } => (vars, tag),
        _ => return false,
    };
    let x = match at(v, &n.path) {
        Some(x) => x,
        None => return false,
    };
    let other = r.below(vars.len());
    let s = Sh::Def(d);
    // The encoding of another variant, to take parts of.
    let rival = {
        let mut e = crate::gen::value_small(&s, r);
        for _ in 0..5 {
            if matches!(&e, DV::E(i, _) if *i != me) {
                break;
            }
            e = crate::gen::value_small(&s, r);
        }
        enc(&s, &e)
    };
    let keys: Vec<RV> = vars
        .iter()
        .map(|v| v.key.clone())
        .chain(vars.iter().filter_map(|v| v.disc).map(|n| enc(&Sh::Int(64), &DV::I(n))))
        .collect();
    let key = if r.one_in(3) {
        let k = r.pick(&keys).clone();
        near_key(&k, r)
    } else {
        r.pick(&keys).clone()
    };
    match (tag, x) {
        (Some(t), M(m)) => match r.below(9) {
            0 => m.retain(|e| e.0 != *t),
            1 | 2 => {
                for e in m.iter_mut() {
                    if e.0 == *t {
                        e.1 = key.clone();
                    }
                }
            }
            3 => {
                for e in m.iter_mut() {
                    if e.0 == *t {
                        e.0 = near_key(t, r);
                    }
                }
            }
            4 => {
                for e in m.iter_mut() {
                    if e.0 == *t {
                        e.1 = any_small(r);
                    }
                }
            }
            5 => {
                // The tag of one variant on the content of another.
                let mine = m.iter().find(|e| e.0 == *t).cloned();
                if let M(o) = &rival {
                    let mut o = o.clone();
                    o.retain(|e| e.0 != *t);
                    o.extend(mine);
                    *m = o;
                }
            }
            6 => {
                // Fields of two variants.
                if let M(o) = &rival {
                    for e in o {
                        if !m.iter().any(|x| x.0 == e.0) {
                            m.push(e.clone());
                        }
                    }
                }
            }
            7 => m.push((T("zzz".into()), U(1))),
            _ => {
                let i = r.below(m.len() + 1);
                m.insert(i, (near_key(t, r), key));
            }
        },
        (_, x) => {
            let content = match &*x {
                M(m) if m.len() == 1 => Some(m[0].1.clone()),
                _ => None,
            };
            let theirs = match &rival {
                M(m) if m.len() == 1 => Some(m[0].1.clone()),
                _ => None,
            };
            *x = match r.below(12) {
                0 => rival,
                1 => key,
                2 => M(vec![(key, content.unwrap_or(NULL))]),
                3 => M(vec![(key, theirs.unwrap_or(NULL))]),
                4 => M(vec![(vars[me].key.clone(), theirs.unwrap_or_else(|| any_small(r)))]),
                5 => {
                    // Two variants in one map.
                    let mut m = match (&*x, &rival) {
                        (M(a), M(b)) => a.iter().chain(b.iter()).cloned().collect(),
                        (M(a), b) => a.iter().cloned().chain([(b.clone(), NULL)]).collect(),
                        (a, b) => vec![(a.clone(), NULL), (b.clone(), U(0))],
                    };
                    let mut seen: Vec<RV> = vec![];
                    m.retain(|e: &(RV, RV)| {
                        let new = !seen.contains(&e.0);
                        seen.push(e.0.clone());
                        new
                    });
                    M(m)
                }
                6 => M(vec![]),
                7 => A(vec![vars[other].key.clone(), content.unwrap_or(NULL)]),
                8 => any_small(r),
                9 => content.unwrap_or(U(3)),
                10 => M(vec![(vars[other].key.clone(), any_small(r))]),
                _ => {
                    let mut m = match &*x {
                        M(m) => m.clone(),
                        x => vec![(x.clone(), NULL)],
                    };
                    let k = near_key(&vars[other].key, r);
                    if !m.iter().any(|e| e.0 == k) {
                        m.push((k, any_small(r)));
                    }
                    M(m)
                }
            };
        }
    }
    true
}

/// Shuffle the entries of every map.
pub fn shuffle(v: &mut RV, r: &mut Rng) {
    match v {
        A(a) => a.iter_mut().for_each(|x| shuffle(x, r)),
        M(m) => {
            for (k, x) in m.iter_mut() {
                shuffle(k, r);
                shuffle(x, r);
            }
            r.shuffle(m);
        }
        G(_, x) => shuffle(x, r),
        _ => {}
    }
}

/// Put the same key twice somewhere.
pub fn duplicate(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let n = match pick_note(notes, r, |_| true) {
        Some(n) => n,
        None => return false,
    };
    match at(v, &n.path) {
        Some(M(m)) if !m.is_empty() => {
            let e = r.pick(m).clone();
            let e = if r.bool() { e } else { (e.0, any_small(r)) };
            let i = r.below(m.len() + 1);
            m.insert(i, e);
            true
        }
        _ => false,
    }
}

/// Rename one key of a body: to one close by, to another field's, to a key of another type.
pub fn rekey(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let (n, b) = match pick_body(notes, r) {
        Some(x) => x,
        None => return false,
    };
    match at(v, &n.path) {
        Some(M(m)) if !m.is_empty() => {
            let i = r.below(m.len());
            let k = match r.below(3) {
                0 => foreign_key(b, r),
                1 if !b.fields.is_empty() => r.pick(&b.fields).key.clone(),
                _ => near_key(&m[i].0, r),
            };
            if m.iter().any(|e| e.0 == k) {
                // Leave the keys distinct.
                return false;
            }
            m[i].0 = k;
            true
        }
        _ => false,
    }
}

/// Swap the values of two entries or elements of a body, or of two enums' contents.
pub fn swap(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    let (n, _) = match pick_body(notes, r) {
        Some(x) => x,
        None => return false,
    };
    match at(v, &n.path) {
        Some(M(m)) if m.len() > 1 => {
            let (i, j) = (r.below(m.len()), r.below(m.len()));
            let t = m[i].1.clone();
            m[i].1 = std::mem::replace(&mut m[j].1, t);
            true
        }
        Some(A(a)) if a.len() > 1 => {
            let (i, j) = (r.below(a.len()), r.below(a.len()));
            a.swap(i, j);
            true
        }
        _ => false,
    }
}

/// Let one container or string of the type become huge.
pub fn grow(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    // Rather a set or a map than what surrounds it.
    let sets = r.bool().then(|| pick_note(notes, r, |n| shape(n).is_some_and(|s| matches!(s, Sh::Set(_, _) | Sh::Map(_, _, _))))).flatten();
    let n = match sets.or_else(|| pick_note(notes, r, |n| {
        matches!(n.what, What::Body(_, _))
            || shape(n).is_some_and(|s| {
                matches!(s, Sh::Str | Sh::Bytes | Sh::Vec(_) | Sh::Set(_, _) | Sh::Map(_, _, _) | Sh::Arr(_, _) | Sh::Tup(_))
            })
    })) {
        Some(n) => n,
        None => return false,
    };
    let s = shape(n).cloned();
    match at(v, &n.path) {
        Some(x) => {
            grow_at(x, s.as_ref(), r);
            true
        }
        None => false,
    }
}

pub fn grow_body(v: &mut RV, notes: &[Note], r: &mut Rng) -> bool {
    match pick_body(notes, r) {
        Some((n, _)) => match at(v, &n.path) {
            Some(x) => {
                grow_at(x, None, r);
                true
            }
            None => false,
        },
        None => false,
    }
}

fn nth_key(s: &Sh, i: u64, r: &mut Rng) -> RV {
    match s {
        Sh::Int(_) if i % 2 == 1 => N(i / 2),
        Sh::Int(_) => U(i / 2),
        Sh::Str => T(format!("{:06}", i)),
        Sh::Bytes => B((i as u32).to_be_bytes().to_vec()),
        Sh::Tup(t) if t.len() > 0 => {
            A(t.iter().enumerate().map(|(j, t)| if j == 0 { nth_key(t, i, r) } else { enc(t, &crate::gen::value_small(t, r)) }).collect())
        }
        _ => U(i),
    }
}

fn grow_at(x: &mut RV, s: Option<&Sh>, r: &mut Rng) {
    let n = *r.pick(&[
        255usize, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 16_384, 32_767, 32_768, 32_769, 65_533, 65_534, 65_535,
        65_536, 65_537, 65_538, 65_540, 66_000, 70_000, 100_001, 131_073,
    ]);
    match (x, s) {
        (A(a), Some(Sh::Set(t, _))) => {
            a.clear();
            for i in 0..n as u64 {
                a.push(nth_key(t, i, r));
            }
        }
        (A(a), s) => {
            let t = match s {
                Some(Sh::Vec(t) | Sh::Arr(t, _)) => Some((**t).clone()),
                _ => None,
            };
            let few: Vec<RV> = (0..7)
                .map(|_| match &t {
                    Some(t) => enc(t, &crate::gen::value_small(t, r)),
                    None => any_small(r),
                })
                .collect();
            while a.len() < n {
                a.push(few[a.len() % few.len()].clone());
            }
            // The last one alone may be of another kind.
            if r.one_in(6) {
                let i = a.len() - 1;
                a[i] = any_small(r);
            }
        }
        (M(m), Some(Sh::Map(k, t, _))) => {
            let few: Vec<RV> = (0..7).map(|_| enc(t, &crate::gen::value_small(t, r))).collect();
            m.clear();
            for i in 0..n {
                m.push((nth_key(k, i as u64, r), few[i % few.len()].clone()));
            }
        }
        (M(m), _) => {
            // Entries that are no fields, before, between and after the fields.
            let (kind, low) = (r.below(4), r.bool());
            let old = std::mem::take(m);
            for i in 0..n as u64 {
                let k = match kind {
                    0 => U(if low { i + 1000 } else { u64::MAX - i }),
                    1 => N(i),
                    2 => T(if low { format!("#{:05}", i) } else { format!("{:06x}~", i) }),
                    _ => B((i as u32).to_be_bytes().to_vec()),
                };
                if !old.iter().any(|e| e.0 == k) {
                    m.push((k, if i % 3 == 0 { NULL } else { U(i) }));
                }
            }
            if r.bool() {
                m.extend(old);
            } else {
                m.splice(0..0, old);
            }
        }
        (T(t), _) => *t = gen::text_n(r, n),
        (B(b), _) => *b = gen::bytes(r, n),
        (x, _) => *x = any_small(r),
    }
}

//! A recording visitor: it accepts whatever it is handed and rebuilds the item from it. Which
//! deserializer method is called at a node follows from a plan, a hash of the node's path.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::fmt;
use vharness::model::*;
use vharness::rng::mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Any,
    Bool,
    Int(u8),
    I128,
    Float(u8),
    Str(u8),
    Bytes(u8),
    Unit(u8),
    Tuple(u8),
    U128,
    Char,
    Opt,
    Seq,
    Map(u8),
    Enum,
}

/// How a seed deals with what it gets.
#[derive(Clone, Copy)]
pub struct Plan {
    pub seed: u64,
    /// Mostly the hint that fits the item, so that deep parts are reached.
    pub fitting: bool,
    /// Leave elements of sequences unread at some nodes.
    pub partial: bool,
}

#[derive(Clone, Copy)]
pub struct At {
    pub plan: Plan,
    pub path: u64,
}

impl At {
    pub fn root(plan: Plan) -> At {
        At {
            plan,
            path: mix(plan.seed),
        }
    }
    fn sub(&self, i: usize) -> At {
        At {
            plan: self.plan,
            path: mix(self.path ^ (i as u64 + 1).wrapping_mul(0x9E37_79B9)),
        }
    }
    /// Some decision at this node.
    fn pick(&self, what: u64, n: u64) -> u64 {
        mix(self.path ^ mix(what)) % n
    }
    fn stop(&self, n: usize) -> usize {
        if self.plan.partial && n > 0 && self.pick(77, 3) == 0 {
            self.pick(78, n as u64) as usize
        } else {
            usize::MAX
        }
    }
}

fn free(at: &At) -> Hint {
    let n = at.pick(2, 30) as u8;
    match n {
        0..=5 => Hint::Any,
        6 => Hint::Bool,
        7 | 8 => Hint::Int(at.pick(3, 8) as u8),
        9 => Hint::I128,
        10 => Hint::Float(at.pick(3, 2) as u8),
        11 | 12 => Hint::Str(at.pick(3, 3) as u8),
        13 => Hint::Bytes(at.pick(3, 2) as u8),
        14 => Hint::Unit(at.pick(3, 2) as u8),
        15 | 16 => Hint::Tuple(at.pick(3, 3) as u8),
        17 => Hint::U128,
        18 => Hint::Char,
        19 | 20 => Hint::Opt,
        21..=23 => Hint::Seq,
        24..=26 => Hint::Map(at.pick(3, 2) as u8),
        _ => Hint::Enum,
    }
}

/// The hint used at a node for an item.
pub fn hint(at: &At, v: &RV) -> Hint {
    if !at.plan.fitting || at.pick(1, 40) == 0 {
        return free(at);
    }
    let k = at.pick(4, 4);
    let s = at.pick(5, 8) as u8;
    match v {
        _ if k == 0 => Hint::Any,
        _ if k == 1 && at.pick(6, 2) == 0 => Hint::Opt,
        U(n) if k == 1 && char::from_u32(*n as u32).is_some() && *n >> 32 == 0 => Hint::Char,
        U(_) | N(_) if k == 2 => Hint::I128,
        U(_) | N(_) => Hint::Int(s),
        B(b) if k == 1 && b.len() <= 16 => Hint::U128,
        B(_) => Hint::Bytes(s % 2),
        T(_) if k == 1 => Hint::Enum,
        T(_) => Hint::Str(s % 3),
        A(_) if k < 3 => Hint::Seq,
        A(_) => Hint::Tuple(s % 3),
        M(m) if k == 1 && m.len() == 1 => Hint::Enum,
        M(_) => Hint::Map(s % 2),
        S(20 | 21) => Hint::Bool,
        S(_) => Hint::Unit(s % 2),
        G(_, _) => Hint::Any,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Exp {
    /// Exactly this.
    Ok(RV),
    /// Exactly this, or an error.
    OkOrErr(RV),
    Err,
    Any,
}

fn both(parts: Vec<Exp>, f: impl FnOnce(Vec<RV>) -> RV) -> Exp {
    let mut v = vec![];
    let (mut err, mut any, mut maybe) = (false, false, false);
    for p in parts {
        match p {
            Exp::Ok(x) => v.push(x),
            Exp::OkOrErr(x) => {
                maybe = true;
                v.push(x)
            }
            Exp::Err => err = true,
            Exp::Any => any = true,
        }
    }
    if err {
        Exp::Err
    } else if any {
        Exp::Any
    } else if maybe {
        Exp::OkOrErr(f(v))
    } else {
        Exp::Ok(f(v))
    }
}

/// The item as delivered without regard to hints.
fn plain(at: &At, v: &RV) -> Exp {
    match v {
        G(_, _) => Exp::Err,
        A(a) => {
            if at.stop(a.len()) < a.len() {
                return Exp::Err;
            }
            both(a.iter().enumerate().map(|(i, x)| expect(&at.sub(i), x)).collect(), A)
        }
        M(m) => {
            let mut p = vec![];
            for (i, (k, x)) in m.iter().enumerate() {
                p.push(expect(&at.sub(2 * i), k));
                p.push(expect(&at.sub(2 * i + 1), x));
            }
            both(p, |v| {
                let mut it = v.into_iter();
                let mut m = vec![];
                while let (Some(k), Some(x)) = (it.next(), it.next()) {
                    m.push((k, x));
                }
                M(m)
            })
        }
        // Null and undefined are both units.
        S(23) => Exp::OkOrErr(NULL),
        v => Exp::Ok(v.clone()),
    }
}

fn maybe(e: Exp) -> Exp {
    match e {
        Exp::Ok(x) => Exp::OkOrErr(x),
        e => e,
    }
}

pub fn expect(at: &At, v: &RV) -> Exp {
    let p = |fits: bool| {
        let e = plain(at, v);
        if fits {
            e
        } else {
            maybe(e)
        }
    };
    match hint(at, v) {
        Hint::Any => p(true),
        Hint::Bool => p(matches!(v, S(20 | 21))),
        Hint::Int(w) => {
            let fits = match v {
                U(n) => match w {
                    0 => *n < 1 << 7,
                    1 => *n < 1 << 15,
                    2 => *n < 1 << 31,
                    3 => *n < 1 << 63,
                    4 => *n < 1 << 8,
                    5 => *n < 1 << 16,
                    6 => *n < 1 << 32,
                    _ => true,
                },
                N(n) => match w {
                    0 => *n < 1 << 7,
                    1 => *n < 1 << 15,
                    2 => *n < 1 << 31,
                    3 => *n < 1 << 63,
                    _ => false,
                },
                _ => false,
            };
            p(fits)
        }
        Hint::I128 => p(matches!(v, U(_) | N(_))),
        Hint::Float(_) => Exp::Err,
        Hint::Str(_) => p(matches!(v, T(_))),
        Hint::Bytes(_) => p(matches!(v, B(_))),
        Hint::Unit(_) => p(*v == NULL),
        Hint::Tuple(2) => p(matches!(v, A(a) if a.len() == 1)),
        Hint::Tuple(_) => p(matches!(v, A(_))),
        Hint::U128 => match v {
            B(b) if b.len() <= 16 => {
                Exp::Ok(B(b[b.iter().take_while(|x| **x == 0).count()..].to_vec()))
            }
            _ => Exp::Err,
        },
        Hint::Char => match v {
            U(n) if *n >> 32 == 0 && char::from_u32(*n as u32).is_some() => Exp::Ok(v.clone()),
            _ => Exp::Err,
        },
        Hint::Opt => match v {
            S(22) => Exp::Ok(NULL),
            S(23) => maybe(expect(&at.sub(0), v)),
            v => expect(&at.sub(0), v),
        },
        Hint::Seq => match v {
            A(_) => plain(at, v),
            _ => Exp::Err,
        },
        Hint::Map(_) => match v {
            M(_) => plain(at, v),
            _ => Exp::Err,
        },
        Hint::Enum => {
            let (k, x, text) = match v {
                T(_) => (v.clone(), NULL, true),
                M(m) if m.len() == 1 => (m[0].0.clone(), m[0].1.clone(), false),
                _ => return Exp::Err,
            };
            let name = expect_name(at, &k);
            let how = variant_method(at, &x, text);
            let content = match how {
                0 if x == NULL => Exp::Ok(NULL),
                0 if x == UNDEF => Exp::Any,
                0 => Exp::Err,
                1 => expect(&at.sub(1), &x),
                2 => match &x {
                    A(_) => plain(&at.sub(1), &x),
                    _ => Exp::Err,
                },
                _ => match &x {
                    M(_) => plain(&at.sub(1), &x),
                    _ => Exp::Err,
                },
            };
            both(vec![name, content], |mut v| {
                let x = v.pop().unwrap();
                M(vec![(v.pop().unwrap(), x)])
            })
        }
    }
}

fn expect_name(at: &At, k: &RV) -> Exp {
    // Names are read without a hint.
    let a = name_at(at);
    match k {
        T(_) => plain(&a, k),
        // Other keys name no variant: exact or refused.
        _ => maybe(plain(&a, k)),
    }
}
fn name_at(at: &At) -> At {
    at.sub(0)
}

fn variant_method(at: &At, v: &RV, text: bool) -> u64 {
    let free = at.pick(9, 4);
    if at.plan.fitting && at.pick(10, 10) > 0 {
        match v {
            _ if text => 0,
            S(22) if free < 2 => 0,
            A(_) if free < 2 => 2,
            M(_) if free < 2 => 3,
            _ => 1,
        }
    } else {
        free
    }
}

/// Records the item it is deserialized from. It needs to know the item to follow the plan.
pub struct Rec<'a>(pub At, pub &'a RV);

struct RecV<'a>(At, &'a RV, bool);

/// The same, with no hint given at the top.
struct NoHint<'a>(At, &'a RV);

fn int(n: i128) -> RV {
    if n < 0 {
        match u64::try_from(-1 - n) {
            Ok(n) => N(n),
            Err(_) => T(format!("impossible {}", n)),
        }
    } else {
        match u64::try_from(n) {
            Ok(n) => U(n),
            Err(_) => T(format!("impossible {}", n)),
        }
    }
}

static DUMMY: RV = UNDEF;

impl<'a, 'de> Visitor<'de> for RecV<'a> {
    type Value = RV;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<RV, E> {
        Ok(S(20 + v as u8))
    }
    fn visit_i8<E: de::Error>(self, v: i8) -> Result<RV, E> {
        Ok(int(v as i128))
    }
    fn visit_i16<E: de::Error>(self, v: i16) -> Result<RV, E> {
        Ok(int(v as i128))
    }
    fn visit_i32<E: de::Error>(self, v: i32) -> Result<RV, E> {
        Ok(int(v as i128))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<RV, E> {
        Ok(int(v as i128))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<RV, E> {
        Ok(int(v))
    }
    fn visit_u8<E: de::Error>(self, v: u8) -> Result<RV, E> {
        Ok(U(v as u64))
    }
    fn visit_u16<E: de::Error>(self, v: u16) -> Result<RV, E> {
        Ok(U(v as u64))
    }
    fn visit_u32<E: de::Error>(self, v: u32) -> Result<RV, E> {
        Ok(U(v as u64))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<RV, E> {
        Ok(U(v))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<RV, E> {
        let b = v.to_be_bytes();
        Ok(B(b[b.iter().take_while(|x| **x == 0).count()..].to_vec()))
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<RV, E> {
        Ok(T(format!("float {}", v)))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<RV, E> {
        Ok(T(format!("float {}", v)))
    }
    fn visit_char<E: de::Error>(self, v: char) -> Result<RV, E> {
        Ok(U(v as u64))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<RV, E> {
        Ok(T(text(v)))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<RV, E> {
        Ok(B(v.to_vec()))
    }
    fn visit_none<E: de::Error>(self) -> Result<RV, E> {
        Ok(NULL)
    }
    fn visit_unit<E: de::Error>(self) -> Result<RV, E> {
        Ok(NULL)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<RV, D::Error> {
        Rec(self.0.sub(0), self.1).deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<RV, D::Error> {
        let x = match self.1 {
            A(a) if a.len() == 1 => &a[0],
            x => x,
        };
        Ok(A(vec![Rec(self.0.sub(0), x).deserialize(d)?]))
    }
    fn visit_seq<Q: SeqAccess<'de>>(self, mut q: Q) -> Result<RV, Q::Error> {
        let items: &[RV] = match self.1 {
            A(a) => a,
            _ => &[],
        };
        let stop = self.0.stop(items.len());
        let mut v = vec![];
        loop {
            if v.len() >= stop {
                return Ok(A(v));
            }
            let i = v.len();
            match q.next_element_seed(Rec(self.0.sub(i), items.get(i).unwrap_or(&DUMMY)))? {
                Some(x) => v.push(x),
                None => break,
            }
        }
        // The end stays the end.
        if q.next_element_seed(Rec(self.0.sub(0), &DUMMY))?.is_some() {
            v.push(T("element after the end".into()));
        }
        Ok(A(v))
    }
    fn visit_map<Q: MapAccess<'de>>(self, mut q: Q) -> Result<RV, Q::Error> {
        let items: &[(RV, RV)] = match self.1 {
            M(m) => m,
            _ => &[],
        };
        let mut m = vec![];
        loop {
            let i = m.len();
            let (k, x) = items.get(i).map(|e| (&e.0, &e.1)).unwrap_or((&DUMMY, &DUMMY));
            let (ks, vs) = (Rec(self.0.sub(2 * i), k), Rec(self.0.sub(2 * i + 1), x));
            let got = if self.0.pick(20, 2) == 0 {
                q.next_entry_seed(ks, vs)?
            } else {
                match q.next_key_seed(ks)? {
                    Some(k) => Some((k, q.next_value_seed(vs)?)),
                    None => None,
                }
            };
            match got {
                Some(e) => m.push(e),
                None => break,
            }
        }
        if q.next_key_seed(Rec(self.0.sub(0), &DUMMY))?.is_some() {
            m.push((T("entry after the end".into()), UNDEF));
        }
        Ok(M(m))
    }
    fn visit_enum<Q: EnumAccess<'de>>(self, q: Q) -> Result<RV, Q::Error> {
        let (k, x, text) = match self.1 {
            T(_) => (self.1, &NULLV, true),
            M(m) if m.len() == 1 => (&m[0].0, &m[0].1, false),
            x => (x, &DUMMY, false),
        };
        let _ = self.2;
        let (name, a) = q.variant_seed(NoHint(name_at(&self.0), k))?;
        let at = self.0.sub(1);
        let x = match variant_method(&self.0, x, text) {
            0 => {
                a.unit_variant()?;
                NULL
            }
            1 => a.newtype_variant_seed(Rec(at, x))?,
            2 => {
                let n = match x {
                    A(a) => a.len(),
                    _ => 2,
                };
                a.tuple_variant(n, RecV(at, x, true))?
            }
            _ => a.struct_variant(&["a", "b"], RecV(at, x, true))?,
        };
        Ok(M(vec![(name, x)]))
    }
}
static NULLV: RV = NULL;

impl<'a, 'de> DeserializeSeed<'de> for NoHint<'a> {
    type Value = RV;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<RV, D::Error> {
        d.deserialize_identifier(RecV(self.0, self.1, false))
    }
}

impl<'a, 'de> DeserializeSeed<'de> for Rec<'a> {
    type Value = RV;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<RV, D::Error> {
        let v = RecV(self.0, self.1, false);
        const NAMES: &[&str] = &["a", "b"];
        let n = match self.1 {
            A(a) => a.len(),
            _ => 2,
        };
        match hint(&self.0, self.1) {
            Hint::Any => d.deserialize_any(v),
            Hint::Bool => d.deserialize_bool(v),
            Hint::Int(0) => d.deserialize_i8(v),
            Hint::Int(1) => d.deserialize_i16(v),
            Hint::Int(2) => d.deserialize_i32(v),
            Hint::Int(3) => d.deserialize_i64(v),
            Hint::Int(4) => d.deserialize_u8(v),
            Hint::Int(5) => d.deserialize_u16(v),
            Hint::Int(6) => d.deserialize_u32(v),
            Hint::Int(_) => d.deserialize_u64(v),
            Hint::I128 => d.deserialize_i128(v),
            Hint::Float(0) => d.deserialize_f32(v),
            Hint::Float(_) => d.deserialize_f64(v),
            Hint::Str(0) => d.deserialize_str(v),
            Hint::Str(1) => d.deserialize_string(v),
            Hint::Str(_) => d.deserialize_identifier(v),
            Hint::Bytes(0) => d.deserialize_bytes(v),
            Hint::Bytes(_) => d.deserialize_byte_buf(v),
            Hint::Unit(0) => d.deserialize_unit(v),
            Hint::Unit(_) => d.deserialize_unit_struct("a", v),
            Hint::Tuple(0) => d.deserialize_tuple(n, v),
            Hint::Tuple(1) => d.deserialize_tuple_struct("a", n, v),
            Hint::Tuple(_) => d.deserialize_newtype_struct("a", v),
            Hint::U128 => d.deserialize_u128(v),
            Hint::Char => d.deserialize_char(v),
            Hint::Opt => d.deserialize_option(v),
            Hint::Seq => d.deserialize_seq(v),
            Hint::Map(0) => d.deserialize_map(v),
            Hint::Map(_) => d.deserialize_struct("a", NAMES, v),
            Hint::Enum => d.deserialize_enum("a", NAMES, v),
        }
    }
}

//! A dynamic value of the serde data model. It drives every method of a serializer, and it is the
//! seed of a strict deserialization that expects just its own shape.
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{
    SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::sync::OnceLock;
use vharness::gen;
use vharness::model::*;
use vharness::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Sv {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    No,
    Some(Box<Sv>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str, u32, &'static str),
    NewStruct(&'static str, Box<Sv>),
    NewVariant(&'static str, u32, &'static str, Box<Sv>),
    /// Elements, whether the length is announced.
    Seq(Vec<Sv>, bool),
    Tuple(Vec<Sv>),
    TupStruct(&'static str, Vec<Sv>),
    TupVariant(&'static str, u32, &'static str, Vec<Sv>),
    /// Entries, whether the length is announced, whether entries are written key first.
    Map(Vec<(Sv, Sv)>, bool, bool),
    Struct(&'static str, Vec<(&'static str, Sv)>),
    StVariant(&'static str, u32, &'static str, Vec<(&'static str, Sv)>),
}
use Sv::*;

pub fn names() -> &'static [&'static str] {
    static N: OnceLock<Vec<&'static str>> = OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<String> = [
            "", "a", "b", "c", "aa", "ab", "ba", "A", "Ok", "type", "id", "é", "\u{1f600}", "\u{0}", "zz", "Name", "x y",
        ]
        .iter()
        .map(|s| s.to_string())
        .collect();
        for n in [22usize, 23, 24, 25, 255, 256] {
            v.push("k".repeat(n));
        }
        for t in gen::dict().texts.iter().take(40) {
            if !v.contains(t) {
                v.push(t.clone());
            }
        }
        v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
    })
}

fn name(r: &mut Rng) -> &'static str {
    let n = names();
    if r.bool() {
        n[r.below(17)]
    } else {
        *r.pick(n)
    }
}

/// What the value is on the wire; `None` if the data model has no representation for it.
pub fn wire(s: &Sv) -> Option<RV> {
    fn seq(v: &[Sv]) -> Option<RV> {
        Option::Some(A(v.iter().map(wire).collect::<Option<_>>()?))
    }
    fn st(f: &[(&'static str, Sv)]) -> Option<RV> {
        Option::Some(M(f.iter().map(|(k, v)| Option::Some((T(k.to_string()), wire(v)?))).collect::<Option<_>>()?))
    }
    fn int(n: i64) -> RV {
        if n < 0 {
            N((-1 - n) as u64)
        } else {
            U(n as u64)
        }
    }
    Option::Some(match s {
        Bool(b) => S(20 + *b as u8),
        I8(n) => int(*n as i64),
        I16(n) => int(*n as i64),
        I32(n) => int(*n as i64),
        I64(n) => int(*n),
        U8(n) => U(*n as u64),
        U16(n) => U(*n as u64),
        U32(n) => U(*n as u64),
        U64(n) => U(*n),
        U128(n) => {
            let b = n.to_be_bytes();
            B(b[b.iter().take_while(|x| **x == 0).count()..].to_vec())
        }
        I128(_) | F32(_) | F64(_) => return None,
        Char(c) => U(*c as u64),
        Str(s) => T(s.clone()),
        Bytes(b) => B(b.clone()),
        No | Unit | UnitStruct(_) => NULL,
        Some(x) => wire(x)?,
        UnitVariant(_, _, v) => T(v.to_string()),
        NewStruct(_, x) => A(vec![wire(x)?]),
        NewVariant(_, _, v, x) => M(vec![(T(v.to_string()), wire(x)?)]),
        Seq(v, _) | Tuple(v) | TupStruct(_, v) => seq(v)?,
        TupVariant(_, _, n, v) => M(vec![(T(n.to_string()), seq(v)?)]),
        Map(m, _, _) => M(m.iter().map(|(k, v)| Option::Some((wire(k)?, wire(v)?))).collect::<Option<_>>()?),
        Struct(_, f) => st(f)?,
        StVariant(_, _, n, f) => M(vec![(T(n.to_string()), st(f)?)]),
    })
}

pub fn scalar(r: &mut Rng) -> Sv {
    let n = gen::int(r);
    let m = if r.bool() { n } else { !n };
    match r.below(17) {
        0 => Bool(r.bool()),
        1 => I8(m as i8),
        2 => I16(m as i16),
        3 => I32(m as i32),
        4 => I64(m as i64),
        5 => U8(n as u8),
        6 => U16(n as u16),
        7 => U32(n as u32),
        8 => U64(n),
        9 => U128(((n as u128) << r.below(65)) ^ gen::int(r) as u128),
        10 => Char(gen::ch(r)),
        11 | 12 => Str(gen::text(r, 60)),
        13 => Bytes(gen::bstr(r, 60)),
        14 => r.pick(&[Unit, No, UnitStruct("a")]).clone(),
        15 => UnitVariant("E", r.below(9) as u32, name(r)),
        _ => U64(m),
    }
}

impl Sv {
    /// Whether the wire form may be null, which an option could not tell from its absence.
    pub fn nullable(&self) -> bool {
        matches!(self, No | Unit | UnitStruct(_) | Some(_))
    }
}

pub fn any(r: &mut Rng) -> Sv {
    let mut b = *r.pick(&[4isize, 12, 30, 60]);
    let d = 1 + r.below(6);
    tree(r, d, &mut b)
}

fn names_n(r: &mut Rng, n: usize) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![];
    for _ in 0..n {
        let s = name(r);
        if !v.contains(&s) {
            v.push(s);
        }
    }
    v
}

pub fn tree(r: &mut Rng, depth: usize, b: &mut isize) -> Sv {
    *b -= 1;
    if depth == 0 || *b < 0 || r.one_in(4) {
        return scalar(r);
    }
    let n = gen::len(r, (*b).max(0) as usize);
    let d = depth - 1;
    let idx = *r.pick(&[0u32, 1, 2, 255, 70000]);
    match r.below(11) {
        0 => {
            let x = tree(r, d, b);
            if x.nullable() {
                x
            } else {
                Some(Box::new(x))
            }
        }
        1 => NewStruct(name(r), Box::new(tree(r, d, b))),
        2 => NewVariant("E", idx, name(r), Box::new(tree(r, d, b))),
        3 | 4 => Seq((0..n).map(|_| tree(r, d, b)).collect(), r.bool()),
        5 => Tuple((0..n).map(|_| tree(r, d, b)).collect()),
        6 => TupStruct(name(r), (0..n).map(|_| tree(r, d, b)).collect()),
        7 => TupVariant("E", idx, name(r), (0..n).map(|_| tree(r, d, b)).collect()),
        8 => {
            let mut m: Vec<(Sv, Sv)> = vec![];
            let mut seen = std::collections::HashSet::new();
            let style = r.below(4);
            for i in 0..n {
                let k = match style {
                    0 => Str(format!("{}{}", "k".repeat(r.below(3)), i)),
                    1 => I64(i as i64 * if r.bool() { 1 } else { -1 }),
                    2 => scalar(r),
                    _ => tree(r, d.min(2), b),
                };
                if let Option::Some(e) = wire(&k).and_then(|w| ref_encode(&w)) {
                    if seen.insert(e) {
                        m.push((k, tree(r, d, b)));
                    }
                }
            }
            Map(m, r.bool(), r.bool())
        }
        9 => Struct(name(r), names_n(r, n).into_iter().map(|k| (k, tree(r, d, b))).collect()),
        _ => StVariant("E", idx, name(r), names_n(r, n).into_iter().map(|k| (k, tree(r, d, b))).collect()),
    }
}

/// A chain that nests `h` levels on the wire.
pub fn chain(r: &mut Rng, h: usize) -> Sv {
    let mut v = scalar(r);
    let mut left = h;
    while left > 0 {
        let two = left >= 2;
        let x = Box::new(v);
        let (n, w) = match r.below(if two { 10 } else { 6 }) {
            0 => (NewStruct("a", x), 1),
            1 => (NewVariant("E", 0, "v", x), 1),
            2 => (Seq(vec![*x], r.bool()), 1),
            3 => (Tuple(vec![U8(1), *x]), 1),
            4 => (Map(vec![(*x, U8(1))], r.bool(), r.bool()), 1),
            5 => (Struct("a", vec![("x", *x)]), 1),
            6 => (TupVariant("E", 0, "v", vec![*x]), 2),
            7 => (StVariant("E", 0, "v", vec![("a", *x)]), 2),
            8 => (TupStruct("a", vec![*x]), 1),
            _ => (if x.nullable() { Seq(vec![*x], true) } else { Some(Box::new(Seq(vec![*x], true))) }, 1),
        };
        v = n;
        left -= w;
    }
    v
}

/// Put `x` in place of some node of `s`.
pub fn plant(s: &mut Sv, x: Sv, r: &mut Rng) {
    let down = !r.one_in(4);
    match s {
        Some(y) | NewStruct(_, y) | NewVariant(_, _, _, y) if down => plant(y, x, r),
        Seq(v, _) | Tuple(v) | TupStruct(_, v) | TupVariant(_, _, _, v) if down && !v.is_empty() => {
            let i = r.below(v.len());
            plant(&mut v[i], x, r)
        }
        Map(m, _, _) if down && !m.is_empty() => {
            let i = r.below(m.len());
            if r.bool() {
                plant(&mut m[i].0, x, r)
            } else {
                plant(&mut m[i].1, x, r)
            }
        }
        Struct(_, f) | StVariant(_, _, _, f) if down && !f.is_empty() => {
            let i = r.below(f.len());
            plant(&mut f[i].1, x, r)
        }
        s => *s = x,
    }
}

/// Repeat an entry of some map or struct; false if there is none.
pub fn duplicate(s: &mut Sv, r: &mut Rng) -> bool {
    let here = r.bool();
    match s {
        Some(y) | NewStruct(_, y) | NewVariant(_, _, _, y) => duplicate(y, r),
        Seq(v, _) | Tuple(v) | TupStruct(_, v) | TupVariant(_, _, _, v) => {
            let n = v.len();
            let at = if n > 0 { r.below(n) } else { 0 };
            (0..n).any(|i| duplicate(&mut v[(at + i) % n], r))
        }
        Map(m, _, _) if !m.is_empty() => {
            let n = m.len();
            if !here {
                let at = r.below(n);
                for i in 0..n {
                    if duplicate(&mut m[(at + i) % n].0, r) || duplicate(&mut m[(at + i) % n].1, r) {
                        return true;
                    }
                }
            }
            let e = (m[r.below(n)].0.clone(), scalar(r));
            let at = r.below(n + 1);
            m.insert(at, e);
            true
        }
        Struct(_, f) | StVariant(_, _, _, f) if !f.is_empty() => {
            let n = f.len();
            if !here {
                let at = r.below(n);
                for i in 0..n {
                    if duplicate(&mut f[(at + i) % n].1, r) {
                        return true;
                    }
                }
            }
            let e = (f[r.below(n)].0, scalar(r));
            f.push(e);
            true
        }
        _ => false,
    }
}

impl Serialize for Sv {
    fn serialize<X: Serializer>(&self, s: X) -> Result<X::Ok, X::Error> {
        match self {
            Bool(x) => s.serialize_bool(*x),
            I8(x) => s.serialize_i8(*x),
            I16(x) => s.serialize_i16(*x),
            I32(x) => s.serialize_i32(*x),
            I64(x) => s.serialize_i64(*x),
            I128(x) => s.serialize_i128(*x),
            U8(x) => s.serialize_u8(*x),
            U16(x) => s.serialize_u16(*x),
            U32(x) => s.serialize_u32(*x),
            U64(x) => s.serialize_u64(*x),
            U128(x) => s.serialize_u128(*x),
            F32(x) => s.serialize_f32(*x),
            F64(x) => s.serialize_f64(*x),
            Char(x) => s.serialize_char(*x),
            // Both ways of handing over a text.
            Str(x) if x.len() % 3 == 0 => s.collect_str(x),
            Str(x) => s.serialize_str(x),
            Bytes(x) => s.serialize_bytes(x),
            No => s.serialize_none(),
            Some(x) => s.serialize_some(&**x),
            Unit => s.serialize_unit(),
            UnitStruct(n) => s.serialize_unit_struct(n),
            UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            NewStruct(n, x) => s.serialize_newtype_struct(n, &**x),
            NewVariant(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            Seq(v, l) => {
                if v.len() % 5 == 4 {
                    return s.collect_seq(v);
                }
                let mut q = s.serialize_seq(if *l { Option::Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            TupStruct(n, v) => {
                let mut q = s.serialize_tuple_struct(n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            TupVariant(n, i, vn, v) => {
                let mut q = s.serialize_tuple_variant(n, *i, vn, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Map(m, l, split) => {
                if m.len() % 5 == 4 {
                    return s.collect_map(m.iter().map(|(k, v)| (k, v)));
                }
                let mut q = s.serialize_map(if *l { Option::Some(m.len()) } else { None })?;
                for (k, v) in m {
                    if *split {
                        q.serialize_key(k)?;
                        q.serialize_value(v)?;
                    } else {
                        q.serialize_entry(k, v)?;
                    }
                }
                q.end()
            }
            Struct(n, f) => {
                let mut q = s.serialize_struct(n, f.len())?;
                for (k, v) in f {
                    q.serialize_field(k, v)?;
                    // A field that is left out leaves no trace.
                    q.skip_field("skipped")?;
                }
                q.end()
            }
            StVariant(n, i, vn, f) => {
                let mut q = s.serialize_struct_variant(n, *i, vn, f.len())?;
                for (k, v) in f {
                    q.serialize_field(k, v)?;
                    q.skip_field("skipped")?;
                }
                q.end()
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Strict deserialization: succeeds only on input of the seed's own shape.

const FIELDS: &[&str] = &["a", "b", "c"];

pub struct Expect<'a>(pub &'a Sv);

/// Map entries in the order in which they come on the wire.
pub fn sorted(m: &[(Sv, Sv)]) -> Vec<&(Sv, Sv)> {
    let mut v: Vec<(Vec<u8>, &(Sv, Sv))> = m
        .iter()
        .map(|e| (wire(&e.0).and_then(|w| ref_encode(&w)).unwrap_or_default(), e))
        .collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v.into_iter().map(|e| e.1).collect()
}

struct BytesV;
impl<'de> Visitor<'de> for BytesV {
    type Value = Vec<u8>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a byte string")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
}
struct StrV;
impl<'de> Visitor<'de> for StrV {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a text string")
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<String, E> {
        Ok(text(v))
    }
}
/// Accepts just one text.
struct Text(&'static str);
impl<'de> DeserializeSeed<'de> for Text {
    type Value = &'static str;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<&'static str, D::Error> {
        match d.deserialize_identifier(StrV)? {
            s if s == self.0 => Ok(self.0),
            s => Err(de::Error::custom(format!("other name {:?}", s))),
        }
    }
}
struct OneOf<'a>(&'a [(&'static str, Sv)]);
impl<'a, 'de> DeserializeSeed<'de> for OneOf<'a> {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        let s = d.deserialize_identifier(StrV)?;
        self.0.iter().position(|f| f.0 == s).ok_or_else(|| de::Error::custom("unknown field"))
    }
}

struct OptV<'a>(&'a Sv);
impl<'a, 'de> Visitor<'de> for OptV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("an option")
    }
    fn visit_none<E: de::Error>(self) -> Result<Sv, E> {
        Ok(No)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        match self.0 {
            Some(x) => Ok(Some(Box::new(Expect(x).deserialize(d)?))),
            _ => Err(de::Error::custom("some instead of none")),
        }
    }
}

struct UnitV<'a>(&'a Sv);
impl<'a, 'de> Visitor<'de> for UnitV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<Sv, E> {
        Ok(self.0.clone())
    }
}

struct SeqV<'a>(&'a [Sv], bool);
impl<'a, 'de> Visitor<'de> for SeqV<'a> {
    type Value = Vec<Sv>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} elements", self.0.len())
    }
    fn visit_seq<Q: SeqAccess<'de>>(self, mut q: Q) -> Result<Vec<Sv>, Q::Error> {
        let mut v = vec![];
        for (i, x) in self.0.iter().enumerate() {
            match q.next_element_seed(Expect(x))? {
                Option::Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        if self.1 {
            // Ask for the end, as visitors of unbounded sequences do.
            if q.next_element::<de::IgnoredAny>()?.is_some() {
                return Err(de::Error::custom("surplus element"));
            }
        }
        Ok(v)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Vec<Sv>, D::Error> {
        Ok(vec![Expect(&self.0[0]).deserialize(d)?])
    }
}

struct MapV<'a>(&'a [(Sv, Sv)], bool);
impl<'a, 'de> Visitor<'de> for MapV<'a> {
    type Value = Vec<(Sv, Sv)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} entries", self.0.len())
    }
    fn visit_map<Q: MapAccess<'de>>(self, mut q: Q) -> Result<Vec<(Sv, Sv)>, Q::Error> {
        let mut v = vec![];
        for (i, e) in sorted(self.0).into_iter().enumerate() {
            let got = if self.1 {
                match q.next_key_seed(Expect(&e.0))? {
                    Option::Some(k) => Option::Some((k, q.next_value_seed(Expect(&e.1))?)),
                    None => None,
                }
            } else {
                q.next_entry_seed(Expect(&e.0), Expect(&e.1))?
            };
            match got {
                Option::Some(x) => v.push(x),
                None => return Err(de::Error::invalid_length(i, &self)),
            }
        }
        if q.next_key::<de::IgnoredAny>()?.is_some() {
            return Err(de::Error::custom("surplus entry"));
        }
        Ok(v)
    }
}

struct StructV<'a>(&'a [(&'static str, Sv)]);
impl<'a, 'de> Visitor<'de> for StructV<'a> {
    type Value = Vec<(&'static str, Sv)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} fields", self.0.len())
    }
    fn visit_map<Q: MapAccess<'de>>(self, mut q: Q) -> Result<Self::Value, Q::Error> {
        let mut got: Vec<Option<Sv>> = self.0.iter().map(|_| None).collect();
        while let Option::Some(i) = q.next_key_seed(OneOf(self.0))? {
            if got[i].is_some() {
                return Err(de::Error::duplicate_field("field"));
            }
            got[i] = Option::Some(q.next_value_seed(Expect(&self.0[i].1))?);
        }
        self.0
            .iter()
            .zip(got)
            .map(|(f, x)| x.map(|x| (f.0, x)).ok_or_else(|| de::Error::missing_field("field")))
            .collect()
    }
}

struct EnumV<'a>(&'a Sv, &'static str);
impl<'a, 'de> Visitor<'de> for EnumV<'a> {
    type Value = Sv;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "variant {:?}", self.1)
    }
    fn visit_enum<Q: EnumAccess<'de>>(self, q: Q) -> Result<Sv, Q::Error> {
        let (_, a) = q.variant_seed(Text(self.1))?;
        Ok(match self.0 {
            UnitVariant(..) => {
                a.unit_variant()?;
                self.0.clone()
            }
            NewVariant(n, i, v, x) => NewVariant(n, *i, v, Box::new(a.newtype_variant_seed(Expect(x))?)),
            TupVariant(n, i, v, x) => TupVariant(n, *i, v, a.tuple_variant(x.len(), SeqV(x, false))?),
            StVariant(n, i, v, f) => StVariant(n, *i, v, a.struct_variant(FIELDS, StructV(f))?),
            _ => unreachable!(),
        })
    }
}

impl<'a, 'de> DeserializeSeed<'de> for Expect<'a> {
    type Value = Sv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        Ok(match self.0 {
            Bool(_) => Bool(bool::deserialize(d)?),
            I8(_) => I8(i8::deserialize(d)?),
            I16(_) => I16(i16::deserialize(d)?),
            I32(_) => I32(i32::deserialize(d)?),
            I64(_) => I64(i64::deserialize(d)?),
            I128(_) => I128(i128::deserialize(d)?),
            U8(_) => U8(u8::deserialize(d)?),
            U16(_) => U16(u16::deserialize(d)?),
            U32(_) => U32(u32::deserialize(d)?),
            U64(_) => U64(u64::deserialize(d)?),
            U128(_) => U128(u128::deserialize(d)?),
            F32(_) => F32(f32::deserialize(d)?),
            F64(_) => F64(f64::deserialize(d)?),
            Char(_) => Char(char::deserialize(d)?),
            Str(s) => Str(if s.len() % 2 == 0 {
                d.deserialize_string(StrV)?
            } else {
                d.deserialize_str(StrV)?
            }),
            Bytes(b) => Bytes(if b.len() % 2 == 0 {
                d.deserialize_byte_buf(BytesV)?
            } else {
                d.deserialize_bytes(BytesV)?
            }),
            No | Some(_) => d.deserialize_option(OptV(self.0))?,
            Unit => d.deserialize_unit(UnitV(self.0))?,
            UnitStruct(n) => d.deserialize_unit_struct(n, UnitV(self.0))?,
            UnitVariant(n, _, v) | NewVariant(n, _, v, _) | TupVariant(n, _, v, _) | StVariant(n, _, v, _) => {
                d.deserialize_enum(n, FIELDS, EnumV(self.0, v))?
            }
            NewStruct(n, x) => {
                let mut v = d.deserialize_newtype_struct(n, SeqV(std::slice::from_ref(x), false))?;
                NewStruct(n, Box::new(v.remove(0)))
            }
            Seq(v, l) => Seq(d.deserialize_seq(SeqV(v, true))?, *l),
            Tuple(v) => Tuple(d.deserialize_tuple(v.len(), SeqV(v, false))?),
            TupStruct(n, v) => TupStruct(n, d.deserialize_tuple_struct(n, v.len(), SeqV(v, false))?),
            Map(m, a, b) => Map(d.deserialize_map(MapV(m, *b))?, *a, *b),
            Struct(n, f) => Struct(n, d.deserialize_struct(n, FIELDS, StructV(f))?),
        })
    }
}

/// The value as it comes back: map entries in wire order.
pub fn norm(s: &Sv) -> Sv {
    let all = |v: &Vec<Sv>| v.iter().map(norm).collect::<Vec<_>>();
    let st = |f: &Vec<(&'static str, Sv)>| f.iter().map(|(k, v)| (*k, norm(v))).collect::<Vec<_>>();
    match s {
        Some(x) => Some(Box::new(norm(x))),
        NewStruct(n, x) => NewStruct(n, Box::new(norm(x))),
        NewVariant(n, i, v, x) => NewVariant(n, *i, v, Box::new(norm(x))),
        Seq(v, l) => Seq(all(v), *l),
        Tuple(v) => Tuple(all(v)),
        TupStruct(n, v) => TupStruct(n, all(v)),
        TupVariant(n, i, vn, v) => TupVariant(n, *i, vn, all(v)),
        Map(m, a, b) => Map(sorted(m).into_iter().map(|(k, v)| (norm(k), norm(v))).collect(), *a, *b),
        Struct(n, f) => Struct(n, st(f)),
        StVariant(n, i, vn, f) => StVariant(n, *i, vn, st(f)),
        x => x.clone(),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Want {
    Ok(Sv),
    Err,
    /// Not specified.
    Any,
}

fn list<'a>(it: impl Iterator<Item = (&'a Sv, &'a RV)>) -> Result<Vec<Sv>, Want> {
    let mut out = vec![];
    let mut any = false;
    for (s, v) in it {
        match want(s, v) {
            Want::Ok(x) => out.push(x),
            Want::Err => return Err(Want::Err),
            Want::Any => any = true,
        }
    }
    if any {
        Err(Want::Any)
    } else {
        Ok(out)
    }
}

fn seq_of(s: &[Sv], v: &RV, f: impl FnOnce(Vec<Sv>) -> Sv) -> Want {
    match v {
        A(a) if a.len() == s.len() => match list(s.iter().zip(a)) {
            Ok(x) => Want::Ok(f(x)),
            Err(e) => e,
        },
        _ => Want::Err,
    }
}

fn st_of(fs: &[(&'static str, Sv)], v: &RV, f: impl FnOnce(Vec<(&'static str, Sv)>) -> Sv) -> Want {
    let m = match v {
        M(m) => m,
        _ => return Want::Err,
    };
    if m.len() != fs.len() {
        return Want::Err;
    }
    let mut parts = vec![];
    for (n, s) in fs {
        match m.iter().find(|e| e.0 == T(n.to_string())) {
            Option::Some(e) => parts.push((s, &e.1)),
            None => return Want::Err,
        }
    }
    match list(parts.into_iter()) {
        Ok(x) => Want::Ok(f(fs.iter().map(|f| f.0).zip(x).collect())),
        Err(e) => e,
    }
}

/// What `Expect(s)` has to make of an item.
pub fn want(s: &Sv, v: &RV) -> Want {
    let int = |lo: i128, hi: i128| -> Option<i128> {
        let n = match v {
            U(n) => *n as i128,
            N(n) => -1 - *n as i128,
            _ => return None,
        };
        if lo <= n && n <= hi {
            Option::Some(n)
        } else {
            None
        }
    };
    macro_rules! ints {
        ($c:ident, $t:ty) => {
            match int(<$t>::MIN as i128, <$t>::MAX as i128) {
                Option::Some(n) => Want::Ok($c(n as $t)),
                None => Want::Err,
            }
        };
    }
    match (s, v) {
        (Bool(_), S(b @ (20 | 21))) => Want::Ok(Bool(*b == 21)),
        (I8(_), _) => ints!(I8, i8),
        (I16(_), _) => ints!(I16, i16),
        (I32(_), _) => ints!(I32, i32),
        (I64(_), _) => ints!(I64, i64),
        (I128(_), _) => ints!(I128, i128),
        (U8(_), _) => ints!(U8, u8),
        (U16(_), _) => ints!(U16, u16),
        (U32(_), _) => ints!(U32, u32),
        (U64(_), _) => ints!(U64, u64),
        (U128(_), B(b)) if b.len() <= 16 => Want::Ok(U128(b.iter().fold(0, |a, x| a << 8 | *x as u128))),
        (Char(_), U(n)) => match u32::try_from(*n).ok().and_then(char::from_u32) {
            Option::Some(c) => Want::Ok(Char(c)),
            None => Want::Err,
        },
        (Str(_), T(t)) => Want::Ok(Str(t.clone())),
        (Bytes(_), B(b)) => Want::Ok(Bytes(b.clone())),
        (No | Some(_), S(22)) => Want::Ok(No),
        (Some(x), v) => match want(x, v) {
            Want::Ok(x) => Want::Ok(Some(Box::new(x))),
            e => e,
        },
        (Unit | UnitStruct(_), S(22)) => Want::Ok(s.clone()),
        (Unit | UnitStruct(_), S(23)) => Want::Any,
        (UnitVariant(_, _, n), T(t)) if t == n => Want::Ok(s.clone()),
        (NewVariant(_, _, n, x), T(t)) if t == n => match want(x, &NULL) {
            Want::Err => Want::Err,
            _ => Want::Any,
        },
        (UnitVariant(_, _, n) | NewVariant(_, _, n, _) | TupVariant(_, _, n, _) | StVariant(_, _, n, _), M(m)) => {
            if m.len() != 1 || m[0].0 != T(n.to_string()) {
                return Want::Err;
            }
            let v = &m[0].1;
            match s {
                UnitVariant(..) => match v {
                    S(22 | 23) => Want::Any,
                    _ => Want::Err,
                },
                NewVariant(e, i, n, x) => match want(x, v) {
                    Want::Ok(x) => Want::Ok(NewVariant(e, *i, n, Box::new(x))),
                    w => w,
                },
                TupVariant(e, i, n, x) => seq_of(x, v, |x| TupVariant(e, *i, n, x)),
                StVariant(e, i, n, f) => st_of(f, v, |x| StVariant(e, *i, n, x)),
                _ => unreachable!(),
            }
        }
        (NewStruct(n, x), v) => seq_of(std::slice::from_ref(x), v, |mut x| NewStruct(n, Box::new(x.remove(0)))),
        (Seq(x, l), v) => seq_of(x, v, |x| Seq(x, *l)),
        (Tuple(x), v) => seq_of(x, v, Tuple),
        (TupStruct(n, x), v) => seq_of(x, v, |x| TupStruct(n, x)),
        (Map(e, a, b), M(m)) => {
            if m.len() != e.len() {
                return Want::Err;
            }
            let e = sorted(e);
            match (list(e.iter().map(|e| &e.0).zip(m.iter().map(|e| &e.0))), list(e.iter().map(|e| &e.1).zip(m.iter().map(|e| &e.1)))) {
                (Ok(k), Ok(v)) => Want::Ok(Map(k.into_iter().zip(v).collect(), *a, *b)),
                (Err(Want::Err), _) | (_, Err(Want::Err)) => Want::Err,
                _ => Want::Any,
            }
        }
        (Struct(n, f), v) => st_of(f, v, |x| Struct(n, x)),
        _ => Want::Err,
    }
}

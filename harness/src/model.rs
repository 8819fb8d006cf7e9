//! Independent reference model of the CBOR subset: value tree, canonical encoder and parsers.
//!
//! Nothing here uses the code under test, except `to_value`/`from_value`, which translate between
//! the model's tree and `oasis_cbor::Value` constructor by constructor (no target comparison,
//! conversion or macro is involved).

use oasis_cbor::{SimpleValue, Value};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RV {
    /// Unsigned integer.
    U(u64),
    /// Negative integer -1 - n.
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<RV>),
    M(Vec<(RV, RV)>),
    G(u64, Box<RV>),
    /// Simple value: 20 false, 21 true, 22 null, 23 undefined.
    S(u8),
}

pub use RV::*;

pub const NULL: RV = S(22);
pub const UNDEF: RV = S(23);

pub fn to_value(v: &RV) -> Value {
    match v {
        U(n) => Value::Unsigned(*n),
        N(n) => Value::Negative(-1 - (*n as i128)),
        B(b) => Value::ByteString(b.clone()),
        T(s) => Value::TextString(s.clone()),
        A(a) => Value::Array(a.iter().map(to_value).collect()),
        M(m) => Value::Map(m.iter().map(|(k, v)| (to_value(k), to_value(v))).collect()),
        G(t, v) => Value::Tag(*t, Box::new(to_value(v))),
        S(s) => Value::Simple(match s {
            20 => SimpleValue::FalseValue,
            21 => SimpleValue::TrueValue,
            22 => SimpleValue::NullValue,
            23 => SimpleValue::Undefined,
            _ => panic!("harness: bad simple"),
        }),
    }
}

/// A text of the code under test: what is not UTF-8 (which only unsafe code can bring about) must not
/// reach the formatting code, and equals nothing that was expected.
pub fn text(s: &str) -> String {
    match std::str::from_utf8(s.as_bytes()) {
        Ok(_) => s.to_string(),
        Err(_) => format!("<not UTF-8: {:02x?}>", s.as_bytes()),
    }
}

/// `None` if the value holds a negative integer outside the CBOR range.
pub fn from_value(v: &Value) -> Option<RV> {
    Some(match v {
        Value::Unsigned(n) => U(*n),
        Value::Negative(n) => {
            let m = n.checked_add(1)?.checked_neg()?;
            N(u64::try_from(m).ok()?)
        }
        Value::ByteString(b) => B(b.clone()),
        Value::TextString(s) => T(text(s)),
        Value::Array(a) => A(a.iter().map(from_value).collect::<Option<_>>()?),
        Value::Map(m) => M(m
            .iter()
            .map(|(k, v)| Some((from_value(k)?, from_value(v)?)))
            .collect::<Option<_>>()?),
        Value::Tag(t, v) => G(*t, Box::new(from_value(v)?)),
        Value::Simple(s) => S(match s {
            SimpleValue::FalseValue => 20,
            SimpleValue::TrueValue => 21,
            SimpleValue::NullValue => 22,
            SimpleValue::Undefined => 23,
        }),
    })
}

/// Head in shortest form.
pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n < 0x100 {
        out.push(m | 24);
        out.push(n as u8);
    } else if n < 0x1_0000 {
        out.push(m | 25);
        out.extend_from_slice(&(n as u16).to_be_bytes());
    } else if n < 0x1_0000_0000 {
        out.push(m | 26);
        out.extend_from_slice(&(n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend_from_slice(&n.to_be_bytes());
    }
}

/// Head with an explicit width: 0 = inline, 1, 2, 4, 8 bytes.
pub fn head_w(out: &mut Vec<u8>, major: u8, n: u64, width: usize) {
    let m = major << 5;
    let be = n.to_be_bytes();
    match width {
        0 => out.push(m | n as u8),
        1 => out.push(m | 24),
        2 => out.push(m | 25),
        4 => out.push(m | 26),
        _ => out.push(m | 27),
    }
    if width > 0 {
        out.extend_from_slice(&be[8 - width..]);
    }
}

pub fn min_width(n: u64) -> usize {
    if n < 24 {
        0
    } else if n < 0x100 {
        1
    } else if n < 0x1_0000 {
        2
    } else if n < 0x1_0000_0000 {
        4
    } else {
        8
    }
}

/// Encode with maps in held order.
pub fn enc_raw(v: &RV, out: &mut Vec<u8>) {
    match v {
        U(n) => head(out, 0, *n),
        N(n) => head(out, 1, *n),
        B(b) => {
            head(out, 2, b.len() as u64);
            out.extend_from_slice(b);
        }
        T(s) => {
            head(out, 3, s.len() as u64);
            out.extend_from_slice(s.as_bytes());
        }
        A(a) => {
            head(out, 4, a.len() as u64);
            for x in a {
                enc_raw(x, out);
            }
        }
        M(m) => {
            head(out, 5, m.len() as u64);
            for (k, x) in m {
                enc_raw(k, out);
                enc_raw(x, out);
            }
        }
        G(t, x) => {
            head(out, 6, *t);
            enc_raw(x, out);
        }
        S(s) => out.push(0xe0 | s),
    }
}

pub fn raw(v: &RV) -> Vec<u8> {
    let mut o = Vec::new();
    enc_raw(v, &mut o);
    o
}

/// The value with every map in canonical order; `None` if some map holds two equal keys.
pub fn canon(v: &RV) -> Option<RV> {
    Some(match v {
        A(a) => A(a.iter().map(canon).collect::<Option<_>>()?),
        M(m) => {
            let mut e: Vec<(Vec<u8>, RV, RV)> = Vec::with_capacity(m.len());
            for (k, x) in m {
                let k = canon(k)?;
                e.push((raw(&k), k, canon(x)?));
            }
            e.sort_by(|a, b| a.0.cmp(&b.0));
            if e.windows(2).any(|w| w[0].0 == w[1].0) {
                return None;
            }
            M(e.into_iter().map(|(_, k, x)| (k, x)).collect())
        }
        G(t, x) => G(*t, Box::new(canon(x)?)),
        x => x.clone(),
    })
}

/// The canonical encoding; `None` on duplicate keys.
pub fn ref_encode(v: &RV) -> Option<Vec<u8>> {
    Some(raw(&canon(v)?))
}

/// Nesting height: 0 for a scalar, 1 + the highest child for a container or tag.
/// An empty array or map has height 0.
pub fn height(v: &RV) -> usize {
    match v {
        A(a) => a.iter().map(|x| height(x) + 1).max().unwrap_or(0),
        M(m) => m
            .iter()
            .map(|(k, x)| height(k).max(height(x)) + 1)
            .max()
            .unwrap_or(0),
        G(_, x) => height(x) + 1,
        _ => 0,
    }
}

pub fn nodes(v: &RV) -> usize {
    match v {
        A(a) => 1 + a.iter().map(nodes).sum::<usize>(),
        M(m) => 1 + m.iter().map(|(k, x)| nodes(k) + nodes(x)).sum::<usize>(),
        G(_, x) => 1 + nodes(x),
        _ => 1,
    }
}

/// A small hash of the shape of a value (types, length classes, nesting), used to count
/// structurally distinct cases.
pub fn shape_hash(v: &RV) -> u64 {
    use crate::rng::mix;
    fn lc(n: u64) -> u64 {
        min_width(n) as u64 * 8 + (64 - n.leading_zeros() as u64) / 4
    }
    match v {
        U(n) => mix(1 + lc(*n)),
        N(n) => mix(101 + lc(*n)),
        B(b) => mix(201 + lc(b.len() as u64)),
        T(b) => mix(301 + lc(b.len() as u64) + if b.is_ascii() { 0 } else { 50 }),
        A(a) => a.iter().fold(mix(401 + lc(a.len() as u64)), |h, x| {
            mix(h ^ shape_hash(x))
        }),
        M(m) => m.iter().fold(mix(501 + lc(m.len() as u64)), |h, (k, x)| {
            mix(mix(h ^ shape_hash(k)) ^ shape_hash(x))
        }),
        G(t, x) => mix(mix(601 + lc(*t)) ^ shape_hash(x)),
        S(s) => mix(700 + *s as u64),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    Truncated,
    Head,
    NonMinimal,
    Utf8,
    KeyOrder,
    Simple,
    Float,
    Depth,
    Trailing,
}

pub struct Parser<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub strict: bool,
}

impl<'a> Parser<'a> {
    fn take(&mut self, n: u64) -> Result<&'a [u8], Bad> {
        let left = (self.b.len() - self.p) as u64;
        if n > left {
            return Err(Bad::Truncated);
        }
        let s = &self.b[self.p..self.p + n as usize];
        self.p += n as usize;
        Ok(s)
    }

    /// `limit`: how many more levels may be opened below this item; `None` is unlimited.
    pub fn item(&mut self, limit: Option<i32>) -> Result<RV, Bad> {
        if let Some(l) = limit {
            if l < 0 {
                return Err(Bad::Depth);
            }
        }
        let sub = limit.map(|l| l - 1);
        let ib = self.take(1)?[0];
        let (major, ai) = (ib / 32, ib % 32);
        let width = match ai {
            0..=23 => 0,
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return Err(Bad::Head),
        };
        let n = if width == 0 {
            ai as u64
        } else {
            self.take(width)?
                .iter()
                .fold(0u64, |a, x| a.wrapping_mul(256).wrapping_add(*x as u64))
        };
        if self.strict && width != min_width(n) as u64 {
            return Err(Bad::NonMinimal);
        }
        Ok(match major {
            0 => U(n),
            1 => N(n),
            2 => B(self.take(n)?.to_vec()),
            3 => match String::from_utf8(self.take(n)?.to_vec()) {
                Ok(s) => T(s),
                Err(_) => return Err(Bad::Utf8),
            },
            4 => {
                let mut a = Vec::new();
                for _ in 0..n {
                    a.push(self.item(sub)?);
                }
                A(a)
            }
            5 => {
                let mut m = Vec::new();
                let mut prev: Option<&[u8]> = None;
                for _ in 0..n {
                    let at = self.p;
                    let k = self.item(sub)?;
                    let kb = &self.b[at..self.p];
                    if self.strict {
                        if let Some(p) = prev {
                            if p >= kb {
                                return Err(Bad::KeyOrder);
                            }
                        }
                    }
                    prev = Some(kb);
                    let v = self.item(sub)?;
                    m.push((k, v));
                }
                M(m)
            }
            6 => G(n, Box::new(self.item(sub)?)),
            _ => {
                // Major type 7. Two, four and eight byte arguments are floats.
                if width >= 2 {
                    if self.strict {
                        return Err(Bad::Float);
                    }
                    UNDEF
                } else if (20..=23).contains(&n) {
                    S(n as u8)
                } else if self.strict {
                    return Err(Bad::Simple);
                } else {
                    UNDEF
                }
            }
        })
    }
}

pub fn parse_strict(b: &[u8], limit: Option<i8>) -> Result<RV, Bad> {
    let mut p = Parser {
        b,
        p: 0,
        strict: true,
    };
    let v = p.item(limit.map(|l| l as i32))?;
    if p.p != b.len() {
        return Err(Bad::Trailing);
    }
    Ok(v)
}

/// Non-strict: the leading item and how many bytes it takes.
pub fn parse_lax(b: &[u8], limit: Option<i8>) -> Result<(RV, usize), Bad> {
    let mut p = Parser {
        b,
        p: 0,
        strict: false,
    };
    let v = p.item(limit.map(|l| l as i32))?;
    Ok((v, p.p))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

/// Hex, abbreviated for messages.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!(
            "{}..{} ({} bytes)",
            hex(&b[..48]),
            hex(&b[b.len() - 24..]),
            b.len()
        )
    }
}

pub fn show(v: &RV) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 {
        let cut: String = s.chars().take(400).collect();
        format!("{}..", cut)
    } else {
        s
    }
}

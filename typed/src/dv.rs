//! Dynamic values, and the conversion of the types under test from and to them.
use oasis_cbor::{Decode, DecodeError, Encode, EncodeAsMap, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::Hash;
use vharness::model::*;

/// A value of any type under test. `Ord` agrees with the `Ord` of the types used as keys.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum DV {
    U(u128),
    I(i64),
    B(bool),
    C(char),
    S(String),
    V(OrdRV),
    Unit,
    No,
    Some(Box<DV>),
    /// Sequences, arrays, tuples and sets (sorted).
    Q(Vec<DV>),
    /// Sorted by key.
    M(Vec<(DV, DV)>),
    /// Fields in order of declaration.
    R(Vec<DV>),
    /// Variant and its fields.
    E(usize, Vec<DV>),
}

/// A dynamic CBOR value; the order is that of the canonical encodings.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct OrdRV(pub RV);
impl PartialOrd for OrdRV {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for OrdRV {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        raw(&self.0).cmp(&raw(&o.0))
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Sh {
    Uint(u32),
    Int(u32),
    U128,
    Bool,
    Char,
    Str,
    Val,
    Unit,
    /// Vec<u8>
    Bytes,
    /// [u8; N]
    BytesN(usize),
    Opt(Box<Sh>),
    Vec(Box<Sh>),
    Arr(Box<Sh>, usize),
    Tup(Vec<Sh>),
    /// Key, value, ordered.
    Map(Box<Sh>, Box<Sh>, bool),
    /// Element, ordered.
    Set(Box<Sh>, bool),
    Def(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Conv {
    None,
    /// u64 as its decimal string
    Dec,
    /// String as reversed bytes
    Rev,
    /// bool as 0 or 1
    Bit,
}

pub struct Fld {
    pub name: &'static str,
    pub key: RV,
    pub sh: Sh,
    pub optional: bool,
    pub skip: bool,
    pub skip_if_default: bool,
    pub ser: Conv,
    pub de: Conv,
    /// Default::default() of the field's type, for skipped fields.
    pub default: Option<fn() -> DV>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Unit,
    Map,
    Array,
    /// The content is the single field itself (transparent structs, newtype variants).
    Inner,
}

pub struct Body {
    pub fields: Vec<Fld>,
    pub form: Form,
    pub allow_unknown: bool,
}

pub struct Var {
    pub name: &'static str,
    pub key: RV,
    pub body: Body,
    /// Unit variant with an explicit discriminant.
    pub disc: Option<i64>,
    pub skip: bool,
    pub embed: bool,
    pub missing: bool,
}

pub enum Kind {
    Struct(Body),
    Enum {
        vars: Vec<Var>,
        tag: Option<RV>,
        untagged: bool,
    },
}

pub struct Def {
    pub name: &'static str,
    pub kind: Kind,
    /// Default::default(), where missing or null values take it.
    pub default: Option<fn() -> DV>,
    /// Encodes as a map, always, and says so.
    pub as_map: bool,
    /// As `as_map`, but only because of skipped or embedded variants, which is finding F13.
    pub f13: bool,
}

pub trait Dyn: Sized {
    fn sh() -> Sh;
    fn dv(&self) -> DV;
    fn of(d: &DV) -> Self;
}

pub fn bad(d: &DV) -> ! {
    panic!("harness: dynamic value of the wrong kind: {:?}", d)
}

macro_rules! prim {
    ($($t:ty, $s:expr, $v:ident, $c:ty;)*) => {$(
        impl Dyn for $t {
            fn sh() -> Sh { $s }
            fn dv(&self) -> DV { DV::$v(*self as $c) }
            fn of(d: &DV) -> Self { match d { DV::$v(x) => *x as $t, _ => bad(d) } }
        }
    )*};
}
prim! {
    u8, Sh::Uint(8), U, u128;
    u16, Sh::Uint(16), U, u128;
    u32, Sh::Uint(32), U, u128;
    u64, Sh::Uint(64), U, u128;
    u128, Sh::U128, U, u128;
    i8, Sh::Int(8), I, i64;
    i16, Sh::Int(16), I, i64;
    i32, Sh::Int(32), I, i64;
    i64, Sh::Int(64), I, i64;
    bool, Sh::Bool, B, bool;
    char, Sh::Char, C, char;
}
impl Dyn for String {
    fn sh() -> Sh {
        Sh::Str
    }
    fn dv(&self) -> DV {
        DV::S(text(self))
    }
    fn of(d: &DV) -> Self {
        match d {
            DV::S(s) => s.clone(),
            _ => bad(d),
        }
    }
}
impl Dyn for Value {
    fn sh() -> Sh {
        Sh::Val
    }
    fn dv(&self) -> DV {
        match from_value(self) {
            Some(v) => DV::V(OrdRV(v)),
            // A negative integer no CBOR item denotes: show it as something no case expects.
            None => DV::S(format!("impossible value {:?}", self)),
        }
    }
    fn of(d: &DV) -> Self {
        match d {
            DV::V(v) => to_value(&v.0),
            _ => bad(d),
        }
    }
}
impl Dyn for () {
    fn sh() -> Sh {
        Sh::Unit
    }
    fn dv(&self) -> DV {
        DV::Unit
    }
    fn of(_: &DV) -> Self {}
}
impl<T: Dyn> Dyn for Option<T> {
    fn sh() -> Sh {
        Sh::Opt(Box::new(T::sh()))
    }
    fn dv(&self) -> DV {
        match self {
            None => DV::No,
            Some(x) => DV::Some(Box::new(x.dv())),
        }
    }
    fn of(d: &DV) -> Self {
        match d {
            DV::No => None,
            DV::Some(x) => Some(T::of(x)),
            _ => bad(d),
        }
    }
}
pub fn seq(d: &DV) -> &[DV] {
    match d {
        DV::Q(a) => a,
        _ => bad(d),
    }
}
pub fn pairs(d: &DV) -> &[(DV, DV)] {
    match d {
        DV::M(a) => a,
        _ => bad(d),
    }
}
impl<T: Dyn> Dyn for Vec<T> {
    fn sh() -> Sh {
        match T::sh() {
            Sh::Uint(8) => Sh::Bytes,
            s => Sh::Vec(Box::new(s)),
        }
    }
    fn dv(&self) -> DV {
        DV::Q(self.iter().map(Dyn::dv).collect())
    }
    fn of(d: &DV) -> Self {
        seq(d).iter().map(T::of).collect()
    }
}
impl<T: Dyn, const N: usize> Dyn for [T; N] {
    fn sh() -> Sh {
        match T::sh() {
            Sh::Uint(8) => Sh::BytesN(N),
            s => Sh::Arr(Box::new(s), N),
        }
    }
    fn dv(&self) -> DV {
        DV::Q(self.iter().map(Dyn::dv).collect())
    }
    fn of(d: &DV) -> Self {
        let v: Vec<T> = seq(d).iter().map(T::of).collect();
        match v.try_into() {
            Ok(a) => a,
            Err(_) => bad(d),
        }
    }
}
macro_rules! tup {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Dyn),*> Dyn for ($($t,)*) {
            fn sh() -> Sh { Sh::Tup(Vec::from([$($t::sh()),*])) }
            fn dv(&self) -> DV { DV::Q(Vec::from([$(self.$i.dv()),*])) }
            fn of(d: &DV) -> Self { let s = seq(d); ($($t::of(&s[$i]),)*) }
        }
    };
}
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tup!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);

fn sorted(mut v: Vec<DV>) -> DV {
    v.sort();
    DV::Q(v)
}
fn sorted_map(mut v: Vec<(DV, DV)>) -> DV {
    v.sort();
    DV::M(v)
}
impl<T: Dyn + Ord> Dyn for BTreeSet<T> {
    fn sh() -> Sh {
        Sh::Set(Box::new(T::sh()), true)
    }
    fn dv(&self) -> DV {
        sorted(self.iter().map(Dyn::dv).collect())
    }
    fn of(d: &DV) -> Self {
        seq(d).iter().map(T::of).collect()
    }
}
impl<T: Dyn + Eq + Hash> Dyn for HashSet<T> {
    fn sh() -> Sh {
        Sh::Set(Box::new(T::sh()), false)
    }
    fn dv(&self) -> DV {
        sorted(self.iter().map(Dyn::dv).collect())
    }
    fn of(d: &DV) -> Self {
        let mut s = HashSet::new();
        grow(&mut s, |s, n| s.reserve(n));
        s.extend(seq(d).iter().map(T::of));
        s
    }
}
impl<K: Dyn + Ord, V: Dyn> Dyn for BTreeMap<K, V> {
    fn sh() -> Sh {
        Sh::Map(Box::new(K::sh()), Box::new(V::sh()), true)
    }
    fn dv(&self) -> DV {
        sorted_map(self.iter().map(|(k, v)| (k.dv(), v.dv())).collect())
    }
    fn of(d: &DV) -> Self {
        pairs(d).iter().map(|(k, v)| (K::of(k), V::of(v))).collect()
    }
}
impl<K: Dyn + Eq + Hash, V: Dyn> Dyn for HashMap<K, V> {
    fn sh() -> Sh {
        Sh::Map(Box::new(K::sh()), Box::new(V::sh()), false)
    }
    fn dv(&self) -> DV {
        sorted_map(self.iter().map(|(k, v)| (k.dv(), v.dv())).collect())
    }
    fn of(d: &DV) -> Self {
        let mut s = HashMap::new();
        grow(&mut s, |s, n| s.reserve(n));
        s.extend(pairs(d).iter().map(|(k, v)| (K::of(k), V::of(v))));
        s
    }
}

thread_local! {
    static GROW: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
/// Vary the capacity, hence the iteration order, of the hash tables built from dynamic values.
/// (Every table also gets a fresh hash seed from the standard library.)
pub fn set_grow(n: usize) {
    GROW.with(|g| g.set(n))
}
fn grow<T>(s: &mut T, f: impl Fn(&mut T, usize)) {
    let n = GROW.with(|g| g.get());
    if n > 0 {
        f(s, n)
    }
}

// ---------------------------------------------------------------------------------------------
// The registry: one entry per type under test, its operations type-erased.

pub const MISSING: u8 = 1;
pub const UNKNOWN: u8 = 2;
pub const TYPE: u8 = 4;
pub const SIZE: u8 = 8;
pub const PARSE: u8 = 16;
pub const ANYERR: u8 = 31;

pub fn kind(e: DecodeError) -> u8 {
    match e {
        DecodeError::MissingField => MISSING,
        DecodeError::UnknownField => UNKNOWN,
        DecodeError::UnexpectedType => TYPE,
        DecodeError::UnexpectedIntegerSize => SIZE,
        DecodeError::ParsingFailed => PARSE,
    }
}

pub fn kinds(m: u8) -> String {
    let n = ["MissingField", "UnknownField", "UnexpectedType", "UnexpectedIntegerSize", "ParsingFailed"];
    let v: Vec<&str> = (0..5).filter(|i| m & (1 << i) != 0).map(|i| n[i]).collect();
    v.join("|")
}

#[derive(Clone, Copy)]
pub struct Enc {
    pub to_vec: fn(&DV) -> Vec<u8>,
    pub to_value: fn(&DV) -> Value,
    pub opt: fn(&DV) -> Option<Value>,
    pub is_empty: fn(&DV) -> bool,
}

#[derive(Clone, Copy)]
pub struct Dec {
    pub from_slice: fn(&[u8]) -> Result<DV, u8>,
    pub from_slice_ns: fn(&[u8]) -> Result<DV, u8>,
    pub from_value: fn(Value) -> Result<DV, u8>,
    pub try_from: fn(Value) -> Result<DV, u8>,
    pub try_from_default: fn(Value) -> Result<DV, u8>,
    pub try_default: fn() -> Result<DV, u8>,
}

pub type AsMap = fn(&DV) -> (Vec<(Value, Value)>, Value);

#[derive(Clone)]
pub struct Root {
    pub name: &'static str,
    pub sh: Sh,
    pub enc: Option<Enc>,
    pub dec: Option<Dec>,
    pub as_map: Option<AsMap>,
    /// Decode and encode again, never leaving the type.
    pub again: Option<fn(&[u8]) -> Result<Vec<u8>, u8>>,
    /// The type lists its features here, for the record of what was covered.
    pub tags: &'static str,
}

pub fn enc_of<T: Dyn + Encode>() -> Option<Enc> {
    Some(Enc {
        to_vec: |d| oasis_cbor::to_vec(T::of(d)),
        to_value: |d| oasis_cbor::to_value(T::of(d)),
        opt: |d| T::of(d).into_optional_cbor_value(),
        is_empty: |d| T::of(d).is_empty(),
    })
}

pub fn dec_of<T: Dyn + Decode>() -> Option<Dec> {
    fn out<T: Dyn>(r: Result<T, DecodeError>) -> Result<DV, u8> {
        match r {
            Ok(x) => Ok(x.dv()),
            Err(e) => Err(kind(e)),
        }
    }
    Some(Dec {
        from_slice: |b| out(oasis_cbor::from_slice::<T>(b)),
        from_slice_ns: |b| out(oasis_cbor::from_slice_non_strict::<T>(b)),
        from_value: |v| out(oasis_cbor::from_value::<T>(v)),
        try_from: |v| out(T::try_from_cbor_value(v)),
        try_from_default: |v| out(T::try_from_cbor_value_default(v)),
        try_default: || out(T::try_default()),
    })
}

pub fn again_of<T: Encode + Decode>() -> Option<fn(&[u8]) -> Result<Vec<u8>, u8>> {
    Some(|b| match oasis_cbor::from_slice::<T>(b) {
        Ok(x) => Ok(oasis_cbor::to_vec(x)),
        Err(e) => Err(kind(e)),
    })
}

/// Whether T implements EncodeAsMap, found by method resolution on the concrete type.
pub struct Probe<T>(pub std::marker::PhantomData<T>);
pub trait ProbeYes {
    fn as_map(&self) -> Option<AsMap>;
}
pub trait ProbeNo {
    fn as_map(&self) -> Option<AsMap>;
}
impl<T: Dyn + EncodeAsMap> ProbeYes for Probe<T> {
    fn as_map(&self) -> Option<AsMap> {
        Some(|d| (T::of(d).into_cbor_map(), T::of(d).into_cbor_value_map()))
    }
}
impl<T> ProbeNo for &Probe<T> {
    fn as_map(&self) -> Option<AsMap> {
        None
    }
}

#[macro_export]
macro_rules! probe {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use $crate::dv::{Probe, ProbeNo, ProbeYes};
        (&Probe::<$t>(std::marker::PhantomData)).as_map()
    }};
}

// Helpers named by attributes of generated types.
pub fn ser_dec(v: &u64) -> String {
    v.to_string()
}
pub fn de_dec(v: String) -> Result<u64, DecodeError> {
    v.parse().map_err(|_| DecodeError::UnexpectedType)
}
pub fn ser_rev(v: &String) -> Vec<u8> {
    v.bytes().rev().collect()
}
pub fn de_rev(v: Vec<u8>) -> Result<String, DecodeError> {
    String::from_utf8(v.into_iter().rev().collect()).map_err(|_| DecodeError::UnexpectedType)
}
pub fn ser_bit(v: &bool) -> u8 {
    *v as u8
}
pub fn de_bit(v: u8) -> Result<bool, DecodeError> {
    match v {
        0 => Ok(false),
        1 => Ok(true),
        _ => Err(DecodeError::UnexpectedIntegerSize),
    }
}
pub fn is_default<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}
pub fn dflt<T: Default + Dyn>() -> DV {
    T::default().dv()
}

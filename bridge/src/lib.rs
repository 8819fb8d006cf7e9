//! Types, roots and dynamic values for checks of the serde bridge.
use oasis_cbor as cbor;
use oasis_cbor::Value;
use serde::de::{DeserializeOwned, DeserializeSeed, Deserializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use vharness::model::RV;
#[cfg(not(miri))]
use vharness::run::target;
use vtyped::dv::*;

#[cfg(miri)]
fn target<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| String::new())
}

pub mod rec;
pub mod sdec;
pub mod sv;
use rec::At;
use sv::Sv;

/// A byte string on both sides.
#[derive(cbor::Encode, cbor::Decode, Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[cbor(transparent)]
#[serde(transparent)]
pub struct Bs(#[serde(with = "serde_bytes")] pub Vec<u8>);

impl Dyn for Bs {
    fn sh() -> Sh {
        Sh::Bytes
    }
    fn dv(&self) -> DV {
        self.0.dv()
    }
    fn of(d: &DV) -> Self {
        Bs(Dyn::of(d))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Encoder(String),
    Decoder(String),
    Value,
    Unsupported,
    Other,
}

pub fn kind(e: cbor::serde::Error) -> Kind {
    use cbor::serde::Error::*;
    // Errors can be shown, whatever they hold.
    let _ = format!("{} {:?}", e, e);
    match e {
        ByteEncoder(e) => Kind::Encoder(format!("{:?}", e)),
        ByteDecoder(e) => Kind::Decoder(format!("{:?}", e)),
        ValueDecoder(_) => Kind::Value,
        UnsupportedType(_) => Kind::Unsupported,
        _ => Kind::Other,
    }
}

pub struct SRoot {
    pub name: &'static str,
    pub sh: Sh,
    pub enc: Enc,
    pub dec: Dec,
    pub to_vec: fn(&DV) -> Result<Vec<u8>, Kind>,
    pub to_value: fn(&DV) -> Result<Value, Kind>,
    pub from_slice: fn(&[u8]) -> Result<DV, Kind>,
    pub from_value: fn(Value) -> Result<DV, Kind>,
}

pub fn sroot<T: Dyn + cbor::Encode + cbor::Decode + Serialize + DeserializeOwned>(name: &'static str) -> SRoot {
    SRoot {
        name,
        sh: T::sh(),
        enc: enc_of::<T>().unwrap(),
        dec: dec_of::<T>().unwrap(),
        to_vec: |d| cbor::serde::to_vec(&T::of(d)).map_err(kind),
        to_value: |d| cbor::serde::to_value(&T::of(d)).map_err(kind),
        from_slice: |b| cbor::serde::from_slice::<T>(b).map(|x| x.dv()).map_err(kind),
        from_value: |v| cbor::serde::from_value::<T>(v).map(|x| x.dv()).map_err(kind),
    }
}

// The bridge takes types, not seeds; this type runs the seed left for it.
pub enum Job {
    Expect(*const Sv),
    Rec(At, *const RV),
    None,
}
thread_local! {
    static JOB: RefCell<Job> = const { RefCell::new(Job::None) };
}
pub enum Out {
    Sv(Sv),
    Rv(RV),
}
struct Via(Out);
impl<'de> Deserialize<'de> for Via {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Via, D::Error> {
        match JOB.with(|j| std::mem::replace(&mut *j.borrow_mut(), Job::None)) {
            Job::Expect(s) => sv::Expect(unsafe { &*s }).deserialize(d).map(|x| Via(Out::Sv(x))),
            Job::Rec(a, v) => rec::Rec(a, unsafe { &*v }).deserialize(d).map(|x| Via(Out::Rv(x))),
            Job::None => panic!("harness: no job"),
        }
    }
}

pub enum In<'a> {
    Slice(&'a [u8]),
    Val(Value),
}
fn via(j: Job, i: In) -> Result<Result<Out, Kind>, String> {
    JOB.with(|x| *x.borrow_mut() = j);
    let r = target(|| {
        match i {
            In::Slice(b) => cbor::serde::from_slice::<Via>(b),
            In::Val(v) => cbor::serde::from_value::<Via>(v),
        }
        .map(|v| v.0)
        .map_err(kind)
    });
    JOB.with(|x| *x.borrow_mut() = Job::None);
    r
}
pub fn expect_sv(s: &Sv, i: In) -> Result<Result<Sv, Kind>, String> {
    via(Job::Expect(s), i).map(|r| {
        r.map(|o| match o {
            Out::Sv(s) => s,
            _ => unreachable!(),
        })
    })
}
pub fn record(a: At, v: &RV, i: In) -> Result<Result<RV, Kind>, String> {
    via(Job::Rec(a, v), i).map(|r| {
        r.map(|o| match o {
            Out::Rv(s) => s,
            _ => unreachable!(),
        })
    })
}


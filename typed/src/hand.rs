//! Types written by hand: references, borrowed encode-only types, and the probe of finding F13.
use oasis_cbor as cbor;
use std::collections::BTreeMap;
use vharness::gen;
use vharness::model::*;
use vharness::run::*;
use vtyped::dv::*;
use vtyped::gen as tgen;
use vtyped::refm;

fn check<T: cbor::Encode>(c: &mut Ctx, what: &str, make: impl Fn() -> T, want: &RV, empty: bool) {
    c.evals(3);
    let wb = match ref_encode(want) {
        Some(b) => b,
        None => return,
    };
    c.seen_bytes(&wb);
    match target(|| (cbor::to_vec(make()), cbor::to_value(make()), make().into_optional_cbor_value(), make().is_empty())) {
        Ok((b, v, o, e)) => {
            if b != wb {
                c.fail("hand-encode", format!("{}: {} expected {}", what, hexs(&b), hexs(&wb)));
            }
            if from_value(&v).and_then(|x| canon(&x)) != canon(want) {
                c.fail("hand-encode", format!("{}: {:?} expected {}", what, v, show(want)));
            }
            if e != empty {
                c.fail("is-empty", format!("{} {}: is_empty {}", what, show(want), e));
            }
            if o.is_none() != empty || o.is_some_and(|o| from_value(&o).and_then(|x| canon(&x)) != canon(want)) {
                c.fail("hand-optional", format!("{} {}", what, show(want)));
            }
        }
        Err(p) => c.fail("panic", format!("{}: {}", what, p)),
    }
}

/// References encode as what they refer to, and containers of references as containers.
pub fn references(c: &mut Ctx) {
    macro_rules! ints {
        ($($t:ty),*) => {$({
            let d = tgen::value_small(&<$t as Dyn>::sh(), &mut c.r);
            let x = <$t as Dyn>::of(&d);
            let want = refm::enc(&<$t as Dyn>::sh(), &d);
            check(c, concat!("&", stringify!($t)), || &x, &want, x == 0);
            check(c, concat!("Option<&", stringify!($t), ">"), || Some(&x), &want, false);
            check(c, concat!("Vec<&", stringify!($t), ">"), || Vec::from([&x, &x]), &A(vec![want.clone(), want.clone()]), false);
        })*};
    }
    ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64);
    let s = gen::text(&mut c.r, 40);
    check(c, "&str", || s.as_str(), &T(s.clone()), s.is_empty());
    check(c, "Vec<&str>", || Vec::from([s.as_str(); 2]), &A(vec![T(s.clone()), T(s.clone())]), false);
    let m: BTreeMap<&str, u64> = [(s.as_str(), 5u64)].into_iter().collect();
    check(c, "BTreeMap<&str, u64>", || m.clone(), &M(vec![(T(s.clone()), U(5))]), false);
    check(c, "(&str, &u8)", || (s.as_str(), &7u8), &A(vec![T(s.clone()), U(7)]), false);
    check(c, "Option<()>", || Some(()), &NULL, false);
}

#[derive(cbor::Encode)]
struct Borrowed<'a> {
    name: &'a str,
    #[cbor(rename = "amt")]
    amount: &'a u128,
    #[cbor(optional)]
    note: &'a str,
    #[cbor(optional)]
    maybe: Option<&'a u64>,
    #[cbor(rename = 7)]
    small: &'a i8,
    list: Vec<&'a str>,
}

#[derive(cbor::Encode)]
struct BorrowedTuple<'a>(&'a str, &'a u64);

#[derive(cbor::Encode)]
#[cbor(transparent)]
struct BorrowedInner<'a>(&'a str);

#[derive(cbor::Encode)]
enum BorrowedEnum<'a, T: cbor::Encode> {
    Text(&'a str),
    #[cbor(rename = "n")]
    Num {
        x: &'a u32,
        y: T,
    },
    #[cbor(rename = 9)]
    Pair(&'a str, T),
    Nothing,
    #[cbor(embed)]
    More(BorrowedUntagged<'a>),
}

#[derive(cbor::Encode)]
#[cbor(untagged)]
enum BorrowedUntagged<'a> {
    Text(&'a str),
    Both { a: &'a str, b: &'a u64 },
}

#[derive(cbor::Encode)]
#[cbor(tag = "t")]
enum BorrowedTagged<'a> {
    A { a: &'a str },
    #[cbor(rename = 3)]
    B,
}

/// Types that borrow, and so only encode.
pub fn encode_only(c: &mut Ctx) {
    let r = &mut c.r;
    let name = gen::text(r, 20);
    let note = if r.bool() { String::new() } else { gen::text(r, 5) };
    let amount = gen::int(r) as u128 * if r.bool() { 1 } else { gen::int(r) as u128 };
    let small = r.u64() as i8;
    let n = gen::int(r);
    let x = gen::int(r) as u32;
    let list: Vec<String> = (0..r.below(4)).map(|_| gen::text(r, 4)).collect();
    let maybe = r.bool();
    let amount_rv = refm::enc(&Sh::U128, &DV::U(amount));
    let mut want = vec![
        (T("name".into()), T(name.clone())),
        (T("amt".into()), amount_rv),
        (U(7), if small < 0 { N((-1 - small as i64) as u64) } else { U(small as u64) }),
        (T("list".into()), A(list.iter().map(|s| T(s.clone())).collect())),
    ];
    if !note.is_empty() {
        want.push((T("note".into()), T(note.clone())));
    }
    if maybe {
        want.push((T("maybe".into()), U(n)));
    }
    let make = || Borrowed {
        name: &name,
        amount: &amount,
        note: &note,
        maybe: if maybe { Some(&n) } else { None },
        small: &small,
        list: list.iter().map(|s| s.as_str()).collect(),
    };
    check(c, "Borrowed", make, &M(want), false);
    check(c, "BorrowedTuple", || BorrowedTuple(&name, &n), &A(vec![T(name.clone()), U(n)]), false);
    // The optional form of a transparent struct is that of its content: compare the plain forms.
    let i = target(|| cbor::to_vec(BorrowedInner(&name)));
    c.eval();
    if i.as_ref().ok() != ref_encode(&T(name.clone())).as_ref() {
        c.fail("hand-encode", format!("BorrowedInner({:?}): {:?}", name, i));
    }
    check(c, "BorrowedEnum::Text", || BorrowedEnum::<u8>::Text(&name), &M(vec![(T("Text".into()), T(name.clone()))]), false);
    check(
        c,
        "BorrowedEnum::Num",
        || BorrowedEnum::Num { x: &x, y: n },
        &M(vec![(T("n".into()), M(vec![(T("x".into()), U(x as u64)), (T("y".into()), U(n))]))]),
        false,
    );
    check(
        c,
        "BorrowedEnum::Pair",
        || BorrowedEnum::Pair(&name, n),
        &M(vec![(U(9), A(vec![T(name.clone()), U(n)]))]),
        false,
    );
    check(c, "BorrowedEnum::Nothing", || BorrowedEnum::<u8>::Nothing, &T("Nothing".into()), false);
    check(
        c,
        "BorrowedEnum::More",
        || BorrowedEnum::<u8>::More(BorrowedUntagged::Both { a: &name, b: &n }),
        &M(vec![(T("a".into()), T(name.clone())), (T("b".into()), U(n))]),
        false,
    );
    check(c, "BorrowedUntagged::Text", || BorrowedUntagged::Text(&name), &T(name.clone()), false);
    check(
        c,
        "BorrowedTagged::A",
        || BorrowedTagged::A { a: &name },
        &M(vec![(T("a".into()), T(name.clone())), (T("t".into()), T("A".into()))]),
        false,
    );
    check(c, "BorrowedTagged::B", || BorrowedTagged::B, &M(vec![(T("t".into()), U(3))]), false);
}

// What users of the crate write: compared with the types' own equality, not through tables.

#[derive(Clone, Debug, Default, PartialEq, Eq, cbor::Encode, cbor::Decode)]
pub struct Token(Vec<u8>);

#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, cbor::Encode, cbor::Decode)]
#[cbor(transparent)]
pub struct Address([u8; 21]);

#[derive(Clone, Debug, PartialEq, Eq, cbor::Encode, cbor::Decode)]
pub enum Proof {
    #[cbor(rename = "signature")]
    Signature([u8; 64]),
    #[cbor(rename = "multisig")]
    Multisig(Vec<Option<Vec<u8>>>),
    #[cbor(rename = "module")]
    Module(String),
}

#[derive(Clone, Debug, PartialEq, Eq, cbor::Encode, cbor::Decode)]
#[cbor(no_default)]
pub struct Unverified(Vec<u8>, Vec<Proof>);

#[derive(Clone, Debug, Default, PartialEq, Eq, cbor::Encode, cbor::Decode)]
pub struct Call {
    #[cbor(optional)]
    pub format: u8,
    #[cbor(optional)]
    pub method: String,
    pub body: Body,
    #[cbor(rename = "ro", optional)]
    pub read_only: bool,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, cbor::Encode, cbor::Decode)]
#[cbor(transparent)]
pub struct Body(Vec<(u64, Option<String>)>);

#[derive(Clone, Debug, Default, PartialEq, Eq, cbor::Encode, cbor::Decode)]
pub struct Fee {
    pub amount: (u128, Vec<u8>),
    #[cbor(optional)]
    pub gas: u64,
    #[cbor(optional)]
    pub consensus_messages: u32,
    #[cbor(optional)]
    pub proxy: Option<(String, Vec<u8>)>,
}

#[derive(Clone, Debug, PartialEq, Eq, cbor::Encode, cbor::Decode)]
#[cbor(tag = "kind")]
pub enum Event {
    #[cbor(rename = 1)]
    Sent { from: Address, to: Address, amount: u128 },
    #[cbor(rename = 2)]
    Burnt { owner: Address, at: i64 },
    #[cbor(rename = 3)]
    Paid(Fee),
    #[cbor(rename = 4)]
    Nothing,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, cbor::Encode, cbor::Decode)]
pub struct Tx {
    #[cbor(rename = "v")]
    pub version: u16,
    pub call: Call,
    #[cbor(rename = "ai")]
    pub fee: Fee,
    #[cbor(optional)]
    pub balances: BTreeMap<Address, BTreeMap<Vec<u8>, u128>>,
    #[cbor(optional)]
    pub events: Vec<Event>,
    #[cbor(optional)]
    pub sigs: Option<Vec<Unverified>>,
    #[cbor(skip)]
    pub cache: Option<u64>,
}

pub fn round_trip(c: &mut Ctx) {
    let r = &mut c.r;
    let addr = |r: &mut vharness::rng::Rng| Address(<[u8; 21]>::try_from(gen::bytes(r, 21)).unwrap());
    let big = |r: &mut vharness::rng::Rng| gen::int(r) as u128 * gen::int(r) as u128;
    let mut tx = Tx {
        version: gen::int(r) as u16,
        call: Call {
            format: r.below(3) as u8,
            method: if r.bool() { String::new() } else { gen::text(r, 12) },
            body: Body((0..r.below(5)).map(|_| (gen::int(r), if r.bool() { None } else { Some(gen::text(r, 5)) })).collect()),
            read_only: r.bool(),
        },
        fee: Fee {
            amount: (big(r), gen::bstr(r, 6)),
            gas: if r.bool() { 0 } else { gen::int(r) },
            consensus_messages: r.below(3) as u32,
            proxy: if r.bool() { None } else { Some((gen::text(r, 5), gen::bstr(r, 9))) },
        },
        balances: BTreeMap::new(),
        events: vec![],
        sigs: None,
        cache: None,
    };
    for _ in 0..r.below(5) {
        let a = addr(r);
        let m = (0..r.below(4)).map(|_| (gen::bstr(r, 5), big(r))).collect();
        tx.balances.insert(a, m);
    }
    for _ in 0..r.below(5) {
        let e = match r.below(4) {
            0 => Event::Sent { from: addr(r), to: addr(r), amount: big(r) },
            1 => Event::Burnt { owner: addr(r), at: gen::int(r) as i64 },
            2 => Event::Paid(tx.fee.clone()),
            _ => Event::Nothing,
        };
        tx.events.push(e);
    }
    if r.bool() {
        tx.sigs = Some(
            (0..r.below(3))
                .map(|_| {
                    Unverified(
                        gen::bstr(r, 30),
                        (0..r.below(3))
                            .map(|_| match r.below(3) {
                                0 => Proof::Signature(<[u8; 64]>::try_from(gen::bytes(r, 64)).unwrap()),
                                1 => Proof::Multisig((0..r.below(4)).map(|_| if r.bool() { None } else { Some(gen::bstr(r, 8)) }).collect()),
                                _ => Proof::Module(gen::text(r, 6)),
                            })
                            .collect(),
                    )
                })
                .collect(),
        );
    }
    let mut cached = tx.clone();
    cached.cache = Some(gen::int(r));
    c.evals(3);
    let res = target(|| {
        let b = cbor::to_vec(tx.clone());
        let x = cbor::from_slice::<Tx>(&b);
        let y = cbor::from_slice::<Tx>(&cbor::to_vec(cached.clone()));
        let z = cbor::from_value::<Tx>(cbor::to_value(tx.clone()));
        (b, x, y, z)
    });
    match res {
        Ok((b, x, y, z)) => {
            c.seen_bytes(&b);
            if parse_strict(&b, Some(64)).is_err() {
                c.fail("round-trip", format!("not canonical: {}", hexs(&b)));
            }
            for (n, g) in [("from_slice", x), ("skipped field", y), ("from_value", z)] {
                if g.as_ref().ok() != Some(&tx) {
                    c.fail("round-trip", cut(format!("{}: {:?} became {:?}", n, tx, g)));
                }
            }
        }
        Err(p) => c.fail("panic", cut(format!("{:?}: {}", tx, p))),
    }
}

/// A map type that holds its entries in the order in which it is given them.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Held(Vec<(cbor::Value, cbor::Value)>);

impl cbor::Encode for Held {
    fn into_cbor_value(self) -> cbor::Value {
        cbor::Value::Map(self.0)
    }
}

impl cbor::EncodeAsMap for Held {}

impl cbor::Decode for Held {
    fn try_from_cbor_value(value: cbor::Value) -> Result<Self, cbor::DecodeError> {
        match value {
            cbor::Value::Map(m) => Ok(Held(m)),
            _ => Err(cbor::DecodeError::UnexpectedType),
        }
    }
}

macro_rules! around {
    ($n:ident, $t:tt, $a:tt) => {
        #[derive(Clone, Debug, PartialEq, Eq, cbor::Encode, cbor::Decode)]
        #[cbor(tag = $t)]
        pub enum $n {
            Plain(Held),
            #[cbor(rename = $a)]
            Other(Held),
            #[cbor(missing)]
            Rest(Held),
        }
    };
}

around!(AroundFirst, 0, "x");
around!(AroundMiddle, "mm", 5);
around!(AroundLast, "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "Rest!");

#[derive(Clone, Debug, PartialEq, Eq, cbor::Encode, cbor::Decode)]
pub enum AroundOutside {
    Plain(Held),
    #[cbor(rename = 5)]
    Other {
        a: Held,
        b: Held,
    },
    #[cbor(embed)]
    Rest(Held),
}

#[derive(Clone, Debug, PartialEq, Eq, cbor::Encode, cbor::Decode)]
#[cbor(no_default)]
pub struct AroundFields {
    #[cbor(rename = 3)]
    a: Held,
    #[cbor(optional)]
    b: Option<Held>,
    c: Vec<Held>,
}

/// Entries inside of derived types come back in the order of the bytes.
pub fn held_round_trip(c: &mut Ctx) {
    let mut some = || {
        let n = c.r.below(9);
        let m = (0..n)
            .map(|_| {
                let k = match c.r.below(4) {
                    0 => T(["a", "b", "m", "n", "z", "Plain", "tt"][c.r.below(7)].into()),
                    1 => U(c.r.below(40) as u64 + 1),
                    2 => B(gen::bstr(&mut c.r, 3)),
                    _ => gen::value(&mut c.r, 1, &mut 4),
                };
                (k, gen::value(&mut c.r, 2, &mut 6))
            })
            .filter(|(k, _)| ![U(0), T("mm".into())].contains(k) && k != &T("z".repeat(42)))
            .fold(vec![], |mut m: Vec<(RV, RV)>, e| {
                if m.iter().all(|x| x.0 != e.0) {
                    m.push(e);
                }
                m
            });
        match canon(&M(m)).map(|v| to_value(&v)) {
            Some(cbor::Value::Map(m)) => Held(m),
            _ => Held(vec![]),
        }
    };
    macro_rules! back {
        ($x:expr) => {{
            let x = $x;
            c.eval();
            match target(|| (cbor::to_vec(x.clone()), cbor::from_slice(&cbor::to_vec(x.clone())), cbor::from_slice_non_strict(&cbor::to_vec(x.clone())))) {
                Ok((b, y, z)) => {
                    c.seen_bytes(&b);
                    for y in [y, z] {
                        if y.as_ref().ok() != Some(&x) {
                            c.fail("round-trip", cut(format!("{:?} became {:?}", x, y)));
                        }
                    }
                }
                Err(p) => c.fail("panic", cut(format!("{:?}: {}", x, p))),
            }
        }};
    }
    let h = some();
    let (g, f) = (some(), some());
    // An embedded map is not taken for a variant.
    let named = |h: &Held| h.0.len() == 1 && matches!(from_value(&h.0[0].0), Some(k) if k == T("Plain".into()) || k == U(5));
    macro_rules! each {
        ($($n:ident),*) => {$(
            back!($n::Plain(h.clone()));
            back!($n::Other(h.clone()));
            back!($n::Rest(h.clone()));
        )*};
    }
    each!(AroundFirst, AroundMiddle, AroundLast);
    back!(AroundOutside::Plain(h.clone()));
    back!(AroundOutside::Other { a: h.clone(), b: g.clone() });
    if !named(&h) {
        back!(AroundOutside::Rest(h.clone()));
    }
    back!(AroundFields { a: h.clone(), b: if f.0.is_empty() { None } else { Some(f.clone()) }, c: vec![g, h, f] });
}

// Finding F13: enums whose skipped or embedded variants are no maps claim to encode as maps.

#[derive(cbor::Encode)]
enum SkipClaims {
    A(u64),
    #[cbor(skip)]
    B,
}

#[derive(cbor::Encode)]
enum EmbedClaims {
    A(u64),
    #[cbor(embed)]
    B(Vec<u8>),
}

#[derive(cbor::Encode)]
#[cbor(tag = "v")]
enum HoldsSkip {
    S(SkipClaims),
}

#[derive(cbor::Encode)]
#[cbor(tag = "v")]
enum HoldsEmbed {
    S(EmbedClaims),
}

pub const PROBES: u64 = 6;

pub fn probe_as_map(c: &mut Ctx) {
    use cbor::EncodeAsMap;
    c.eval();
    c.seen(c.idx);
    let tagged = |k: &str, v: RV| Some(M(vec![(T(k.into()), v), (T("v".into()), T("S".into()))]));
    // (signature of the known finding or an alarm's, what happened, what a map would be)
    let (sig, got, want): (&str, Result<Vec<u8>, String>, Option<RV>) = match c.idx {
        0 => ("F13-skip", target(|| cbor::to_vec(HoldsSkip::S(SkipClaims::B))), None),
        1 => ("F13-embed", target(|| cbor::to_vec(HoldsEmbed::S(EmbedClaims::B(vec![1])))), None),
        2 => ("as-map", target(|| cbor::to_vec(HoldsSkip::S(SkipClaims::A(3)))), tagged("A", U(3))),
        3 => ("as-map", target(|| cbor::to_vec(HoldsEmbed::S(EmbedClaims::A(3)))), tagged("A", U(3))),
        4 => (
            "as-map",
            target(|| cbor::to_vec(cbor::Value::Map(SkipClaims::A(5).into_cbor_map()))),
            Some(M(vec![(T("A".into()), U(5))])),
        ),
        _ => (
            "as-map",
            target(|| cbor::to_vec(EmbedClaims::A(5).into_cbor_value_map())),
            Some(M(vec![(T("A".into()), U(5))])),
        ),
    };
    match (got, want) {
        (Err(p), _) => c.fail(sig, format!("probe {}: panic: {}", c.idx, p)),
        (Ok(b), Some(w)) => {
            if Some(&b) != ref_encode(&w).as_ref() {
                c.fail(sig, format!("probe {}: {} expected {}", c.idx, hexs(&b), show(&w)));
            }
        }
        (Ok(b), None) => {
            // Whatever the repair, the result has to be a map with the tag.
            match parse_strict(&b, Some(127)) {
                Ok(M(m)) if m.iter().any(|e| e.0 == T("v".into())) => {}
                _ => c.fail(sig, format!("probe {}: {}", c.idx, hexs(&b))),
            }
        }
    }
}

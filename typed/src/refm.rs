//! The documented mapping between values and CBOR: reference encoder and decoder.
use crate::dv::*;
use std::sync::OnceLock;
use vharness::model::*;

static DEFS: OnceLock<Vec<Def>> = OnceLock::new();
pub fn set_defs(d: Vec<Def>) {
    let _ = DEFS.set(d);
}
pub fn defs() -> &'static [Def] {
    DEFS.get().expect("defs")
}
pub fn def(i: usize) -> &'static Def {
    &defs()[i]
}

// ---------------------------------------------------------------------------------------------
// Encoding

/// Where in an encoding something of a type lies: indices of array elements, of map keys (2i) and
/// map values (2i+1), of the content of tags (0).
pub type Path = Vec<u32>;

#[derive(Clone, Debug)]
pub enum What {
    /// Anything of this shape.
    At(Sh),
    /// As `At`, and a null here means "missing" (a derived field, variant content or the root).
    Slot(Sh),
    /// The map or array holding the fields of a struct or variant (variant None for structs).
    Body(usize, Option<usize>),
    /// A map entry of a struct: path of the value; definition, variant, field.
    Field(usize, Option<usize>, usize),
    /// The encoding of an enum.
    Enum(usize, usize),
}

#[derive(Clone, Debug)]
pub struct Note {
    pub path: Path,
    pub what: What,
}

pub struct Encoder {
    pub notes: Option<Vec<Note>>,
    path: Path,
}

impl Encoder {
    pub fn new(notes: bool) -> Encoder {
        Encoder {
            notes: if notes { Some(vec![]) } else { None },
            path: vec![],
        }
    }
    fn note(&mut self, what: impl FnOnce() -> What) {
        if let Some(n) = &mut self.notes {
            n.push(Note {
                path: self.path.clone(),
                what: what(),
            });
        }
    }
    fn sub(&mut self, i: usize, slot: bool, s: &Sh, d: &DV) -> RV {
        self.path.push(i as u32);
        let r = self.enc_slot(s, d, slot);
        self.path.pop();
        r
    }
    pub fn enc_slot(&mut self, s: &Sh, d: &DV, slot: bool) -> RV {
        self.note(|| if slot { What::Slot(s.clone()) } else { What::At(s.clone()) });
        self.enc(s, d)
    }
    fn enc(&mut self, s: &Sh, d: &DV) -> RV {
        match (s, d) {
            (Sh::Uint(_), DV::U(n)) => U(*n as u64),
            (Sh::Int(_), DV::I(n)) => {
                if *n < 0 {
                    N((-1 - *n) as u64)
                } else {
                    U(*n as u64)
                }
            }
            (Sh::U128, DV::U(n)) => {
                let b = n.to_be_bytes();
                let z = b.iter().take_while(|x| **x == 0).count();
                B(b[z..].to_vec())
            }
            (Sh::Bool, DV::B(b)) => S(20 + *b as u8),
            (Sh::Char, DV::C(c)) => U(*c as u64),
            (Sh::Str, DV::S(s)) => T(s.clone()),
            (Sh::Val, DV::V(v)) => v.0.clone(),
            (Sh::Unit, DV::Unit) => NULL,
            (Sh::Bytes | Sh::BytesN(_), DV::Q(a)) => B(a
                .iter()
                .map(|x| match x {
                    DV::U(n) => *n as u8,
                    _ => bad(x),
                })
                .collect()),
            (Sh::Opt(_), DV::No) => NULL,
            (Sh::Opt(t), DV::Some(x)) => self.enc(t, x),
            (Sh::Vec(t) | Sh::Arr(t, _) | Sh::Set(t, true), DV::Q(a)) => {
                A(a.iter().enumerate().map(|(i, x)| self.sub(i, false, t, x)).collect())
            }
            (Sh::Set(t, false), DV::Q(a)) => {
                // In the order of the canonical encodings.
                let mut v: Vec<(Vec<u8>, &DV)> = a
                    .iter()
                    .map(|x| {
                        let e = Encoder::new(false).enc(t, x);
                        (raw(&canon(&e).unwrap_or(e)), x)
                    })
                    .collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                A(v.iter().enumerate().map(|(i, x)| self.sub(i, false, t, x.1)).collect())
            }
            (Sh::Tup(t), DV::Q(a)) => {
                A(t.iter().zip(a).enumerate().map(|(i, (t, x))| self.sub(i, false, t, x)).collect())
            }
            (Sh::Map(k, v, _), DV::M(m)) => M(m
                .iter()
                .enumerate()
                .map(|(i, (a, b))| (self.sub(2 * i, false, k, a), self.sub(2 * i + 1, false, v, b)))
                .collect()),
            (Sh::Def(n), d) => self.enc_def(*n, d),
            _ => bad(d),
        }
    }

    fn enc_def(&mut self, n: usize, d: &DV) -> RV {
        match (&def(n).kind, d) {
            (Kind::Struct(b), DV::R(f)) => self.body(n, None, b, f),
            (Kind::Enum { vars, tag, untagged }, DV::E(i, f)) => {
                let v = &vars[*i];
                self.note(|| What::Enum(n, *i));
                if v.skip {
                    return UNDEF;
                }
                if v.embed {
                    return self.enc_slot(&v.body.fields[0].sh, &f[0], true);
                }
                if let Some(tag) = tag {
                    let mut m = match self.body(n, Some(*i), &v.body, f) {
                        M(m) => m,
                        x => panic!("harness: {:?} in a tagged enum", x),
                    };
                    if !v.missing {
                        m.push((tag.clone(), v.key.clone()));
                    }
                    return M(m);
                }
                if v.body.form == Form::Unit {
                    return match v.disc {
                        Some(n) => Encoder::new(false).enc(&Sh::Int(64), &DV::I(n)),
                        None => v.key.clone(),
                    };
                }
                if *untagged {
                    self.body(n, Some(*i), &v.body, f)
                } else {
                    self.path.push(1);
                    let x = self.body(n, Some(*i), &v.body, f);
                    self.path.pop();
                    M(vec![(v.key.clone(), x)])
                }
            }
            _ => bad(d),
        }
    }

    fn body(&mut self, n: usize, var: Option<usize>, b: &Body, f: &[DV]) -> RV {
        self.note(|| What::Body(n, var));
        match b.form {
            Form::Unit => NULL,
            Form::Inner => self.enc_slot(&b.fields[0].sh, &f[0], true),
            Form::Array => {
                let mut out = vec![];
                for (fld, x) in b.fields.iter().zip(f) {
                    if !fld.skip {
                        let (s, x) = wire(fld, x);
                        let r = self.sub(out.len(), true, &s, &x);
                        out.push(r);
                    }
                }
                A(out)
            }
            Form::Map => {
                let mut out = vec![];
                for (i, (fld, x)) in b.fields.iter().zip(f).enumerate() {
                    if field_omitted(fld, x) {
                        continue;
                    }
                    let (s, x) = wire(fld, x);
                    self.path.push(2 * out.len() as u32 + 1);
                    self.note(|| What::Field(n, var, i));
                    self.path.pop();
                    let r = self.sub(2 * out.len() + 1, true, &s, &x);
                    out.push((fld.key.clone(), r));
                }
                M(out)
            }
        }
    }
}

/// The shape and value that a custom serializer puts on the wire for a field.
pub fn wire(f: &Fld, x: &DV) -> (Sh, DV) {
    match (f.ser, x) {
        (Conv::None, x) => (f.sh.clone(), x.clone()),
        (Conv::Dec, DV::U(n)) => (Sh::Str, ser_dec(&(*n as u64)).dv()),
        (Conv::Rev, DV::S(s)) => (Sh::Bytes, ser_rev(s).dv()),
        (Conv::Bit, DV::B(b)) => (Sh::Uint(8), ser_bit(b).dv()),
        _ => bad(x),
    }
}

pub fn enc(s: &Sh, d: &DV) -> RV {
    Encoder::new(false).enc(s, d)
}

pub fn enc_notes(s: &Sh, d: &DV) -> (RV, Vec<Note>) {
    let mut e = Encoder::new(true);
    let r = e.enc_slot(s, d, true);
    (r, e.notes.unwrap())
}

/// What the optional form emits, `None` if the value is omitted.
pub fn opt(s: &Sh, d: &DV) -> Option<RV> {
    if omitted(s, d) {
        None
    } else {
        Some(enc(s, d))
    }
}

fn omitted(s: &Sh, d: &DV) -> bool {
    match s {
        Sh::Def(n) => match (&def(*n).kind, d) {
            (Kind::Struct(b), DV::R(f)) => match b.form {
                Form::Unit => true,
                Form::Inner => omitted(&b.fields[0].sh, &f[0]),
                Form::Array => false,
                Form::Map => b.fields.iter().zip(f).all(|(fld, x)| field_omitted(fld, x)),
            },
            _ => false,
        },
        _ => is_empty(s, d),
    }
}

fn field_omitted(fld: &Fld, x: &DV) -> bool {
    if fld.skip {
        true
    } else if !fld.optional {
        false
    } else if fld.skip_if_default {
        fld.default.is_some_and(|d| d() == *x)
    } else {
        let (s, x) = wire(fld, x);
        omitted(&s, &x)
    }
}

pub fn is_empty(s: &Sh, d: &DV) -> bool {
    match (s, d) {
        (_, DV::U(0)) | (_, DV::I(0)) | (_, DV::B(false)) | (_, DV::C('\0')) | (_, DV::Unit) => true,
        (_, DV::No) => true,
        (_, DV::S(s)) => s.is_empty(),
        (_, DV::V(v)) => v.0 == NULL || v.0 == UNDEF,
        (Sh::BytesN(_) | Sh::Arr(_, _), _) => false,
        (Sh::Tup(t), DV::Q(a)) => t.iter().zip(a).all(|(t, x)| is_empty(t, x)),
        (_, DV::Q(a)) => a.is_empty(),
        (_, DV::M(a)) => a.is_empty(),
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// Decoding

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Exp {
    Ok(DV),
    /// An error, of one of these kinds.
    Err(u8),
    /// Not specified.
    Any,
}

/// Gathers the parts of a composite: any unspecified part makes the whole unspecified, any error
/// an error of one of the kinds present.
struct All {
    ok: Vec<DV>,
    err: u8,
    any: bool,
}
impl All {
    fn new() -> All {
        All {
            ok: vec![],
            err: 0,
            any: false,
        }
    }
    fn add(&mut self, e: Exp) {
        match e {
            Exp::Ok(d) => self.ok.push(d),
            Exp::Err(m) => self.err |= m,
            Exp::Any => self.any = true,
        }
    }
    fn done(self, f: impl FnOnce(Vec<DV>) -> DV) -> Exp {
        if self.any {
            // An error elsewhere is an error whatever the unspecified part does.
            if self.err != 0 {
                Exp::Err(ANYERR)
            } else {
                Exp::Any
            }
        } else if self.err != 0 {
            Exp::Err(self.err)
        } else {
            Exp::Ok(f(self.ok))
        }
    }
}

fn is_null(v: &RV) -> bool {
    *v == NULL || *v == UNDEF
}

pub fn try_default(s: &Sh) -> Exp {
    match s {
        Sh::Uint(_) | Sh::U128 => Exp::Ok(DV::U(0)),
        Sh::Int(_) => Exp::Ok(DV::I(0)),
        Sh::Bool => Exp::Ok(DV::B(false)),
        Sh::Char => Exp::Ok(DV::C('\0')),
        Sh::Str => Exp::Ok(DV::S(String::new())),
        Sh::Val => Exp::Ok(DV::V(OrdRV(NULL))),
        Sh::Unit => Exp::Ok(DV::Unit),
        Sh::Bytes | Sh::Vec(_) | Sh::Set(_, _) => Exp::Ok(DV::Q(vec![])),
        Sh::BytesN(n) => Exp::Ok(DV::Q(vec![DV::U(0); *n])),
        Sh::Opt(_) => Exp::Ok(DV::No),
        Sh::Arr(_, _) => Exp::Err(MISSING),
        Sh::Map(_, _, _) => Exp::Ok(DV::M(vec![])),
        Sh::Tup(t) => {
            let mut a = All::new();
            t.iter().for_each(|t| a.add(try_default(t)));
            a.done(DV::Q)
        }
        Sh::Def(n) => match def(*n).default {
            Some(f) => Exp::Ok(f()),
            None => Exp::Err(MISSING),
        },
    }
}

pub fn dec_default(s: &Sh, v: &RV) -> Exp {
    if is_null(v) {
        try_default(s)
    } else {
        dec(s, v)
    }
}

pub fn dec(s: &Sh, v: &RV) -> Exp {
    match (s, v) {
        (Sh::Uint(w), U(n)) => {
            if *w < 64 && *n >> *w != 0 {
                Exp::Err(SIZE)
            } else {
                Exp::Ok(DV::U(*n as u128))
            }
        }
        (Sh::Int(w), U(n)) | (Sh::Int(w), N(n)) => {
            // Both magnitudes range over 0..2^(w-1).
            if *n >> (*w - 1) != 0 {
                Exp::Err(SIZE)
            } else if let U(_) = v {
                Exp::Ok(DV::I(*n as i64))
            } else {
                Exp::Ok(DV::I(-1 - (*n as i64)))
            }
        }
        (Sh::U128, B(b)) => {
            if b.len() > 16 {
                Exp::Err(SIZE)
            } else {
                Exp::Ok(DV::U(b.iter().fold(0, |a, x| a << 8 | *x as u128)))
            }
        }
        (Sh::Bool, S(20)) => Exp::Ok(DV::B(false)),
        (Sh::Bool, S(21)) => Exp::Ok(DV::B(true)),
        (Sh::Char, U(n)) => match u32::try_from(*n).ok().and_then(char::from_u32) {
            Some(c) => Exp::Ok(DV::C(c)),
            // A number, but no character: either error fits.
            None => Exp::Err(TYPE | SIZE),
        },
        (Sh::Str, T(s)) => Exp::Ok(DV::S(s.clone())),
        (Sh::Val, v) => Exp::Ok(DV::V(OrdRV(v.clone()))),
        (Sh::Unit, v) if is_null(v) => Exp::Ok(DV::Unit),
        (Sh::Bytes, B(b)) => Exp::Ok(b.dv()),
        (Sh::BytesN(n), B(b)) => {
            if b.len() == *n {
                Exp::Ok(b.dv())
            } else {
                // A byte string of another length: not a defect any error kind names.
                Exp::Err(ANYERR & !PARSE)
            }
        }
        (Sh::Opt(_), v) if *v == NULL => Exp::Ok(DV::No),
        (Sh::Opt(t), v) => match dec(t, v) {
            Exp::Ok(d) => Exp::Ok(DV::Some(Box::new(d))),
            e => e,
        },
        (Sh::Vec(t), A(a)) => {
            let mut r = All::new();
            a.iter().for_each(|x| r.add(dec(t, x)));
            r.done(DV::Q)
        }
        (Sh::Set(t, _), A(a)) => {
            let mut r = All::new();
            a.iter().for_each(|x| r.add(dec(t, x)));
            r.done(|mut v| {
                v.sort();
                v.dedup();
                DV::Q(v)
            })
        }
        (Sh::Arr(t, n), A(a)) => {
            let mut r = All::new();
            a.iter().for_each(|x| r.add(dec(t, x)));
            if a.len() != *n {
                r.err |= ANYERR & !PARSE;
            }
            r.done(DV::Q)
        }
        (Sh::Tup(t), A(a)) => {
            let mut r = All::new();
            t.iter().zip(a).for_each(|(t, x)| r.add(dec(t, x)));
            if a.len() != t.len() {
                r.err |= ANYERR & !PARSE;
            }
            r.done(DV::Q)
        }
        (Sh::Map(ks, vs, _), M(m)) => {
            let mut kr = All::new();
            let mut vr = All::new();
            for (k, v) in m {
                kr.add(dec(ks, k));
                vr.add(dec(vs, v));
            }
            if kr.any || vr.any || kr.err | vr.err != 0 {
                let e = kr.err | vr.err;
                let any = kr.any || vr.any;
                return if e == 0 {
                    Exp::Any
                } else {
                    Exp::Err(if any { ANYERR } else { e })
                };
            }
            let mut p: Vec<(DV, DV)> = kr.ok.into_iter().zip(vr.ok).collect();
            p.sort();
            let n = p.len();
            p.dedup_by(|a, b| a.0 == b.0);
            if p.len() != n {
                // Keys that decode to the same key: which entry wins is not specified.
                return Exp::Any;
            }
            Exp::Ok(DV::M(p))
        }
        (Sh::Def(n), v) => dec_def(*n, v),
        _ => Exp::Err(TYPE),
    }
}

fn dec_def(n: usize, v: &RV) -> Exp {
    match &def(n).kind {
        Kind::Struct(b) => match dec_body(b, v) {
            Ok(e) => e.done(DV::R),
            Err(e) => e,
        },
        Kind::Enum { vars, tag, untagged } => {
            if *untagged {
                return Exp::Any;
            }
            match tag {
                Some(t) => dec_tagged(vars, t, v),
                None => dec_external(vars, v),
            }
        }
    }
}

fn variant(i: usize, b: &Body, v: &RV) -> Exp {
    match dec_body(b, v) {
        Ok(e) => e.done(|f| DV::E(i, f)),
        Err(e) => e,
    }
}

fn dec_tagged(vars: &[Var], tag: &RV, v: &RV) -> Exp {
    let m = match v {
        M(m) => m,
        _ => return Exp::Err(TYPE | UNKNOWN),
    };
    if m.iter().filter(|e| e.0 == *tag).count() > 1 {
        // Whichever is taken for the tag, another one is left.
        let refused = m.iter().filter(|e| e.0 == *tag).all(|e| {
            vars.iter().filter(|x| !x.skip && (x.key == e.1 || (x.missing && e.1 == UNDEF))).all(|x| {
                x.body.form == Form::Map && !x.body.allow_unknown && !x.body.fields.iter().any(|f| f.key == *tag)
            })
        });
        return if refused { Exp::Err(ANYERR) } else { Exp::Any };
    }
    let key = m.iter().find(|e| e.0 == *tag).map(|e| e.1.clone()).unwrap_or(UNDEF);
    let rest = M(m.iter().filter(|e| e.0 != *tag).cloned().collect());
    for (i, x) in vars.iter().enumerate() {
        if !x.skip && (key == x.key || (x.missing && key == UNDEF)) {
            return variant(i, &x.body, &rest);
        }
    }
    // No tag, or a tag that names no variant.
    Exp::Err(UNKNOWN | MISSING | TYPE)
}

fn dec_external(vars: &[Var], v: &RV) -> Exp {
    if let M(m) = v {
        if m.len() == 1 {
            for (i, x) in vars.iter().enumerate() {
                if !x.skip && !x.embed && x.body.form != Form::Unit && x.key == m[0].0 {
                    return variant(i, &x.body, &m[0].1);
                }
            }
        }
    } else {
        for (i, x) in vars.iter().enumerate() {
            if !x.skip && !x.embed && x.body.form == Form::Unit {
                let k = match x.disc {
                    Some(n) => enc(&Sh::Int(64), &DV::I(n)),
                    None => x.key.clone(),
                };
                if k == *v {
                    return Exp::Ok(DV::E(i, vec![]));
                }
            }
        }
    }
    for (i, x) in vars.iter().enumerate() {
        if !x.skip && x.embed {
            match dec_default(&x.body.fields[0].sh, v) {
                Exp::Ok(d) => return Exp::Ok(DV::E(i, vec![d])),
                Exp::Err(_) => {}
                Exp::Any => return Exp::Any,
            }
        }
    }
    Exp::Err(UNKNOWN | TYPE)
}

fn dec_field(f: &Fld, v: &RV) -> Exp {
    let sh = match f.de {
        Conv::None => return dec_default(&f.sh, v),
        Conv::Dec => Sh::Str,
        Conv::Rev => Sh::Bytes,
        Conv::Bit => Sh::Uint(8),
    };
    let d = match dec_default(&sh, v) {
        Exp::Ok(d) => d,
        e => return e,
    };
    let r = match f.de {
        Conv::Dec => de_dec(String::of(&d)).map(|x| x.dv()),
        Conv::Rev => de_rev(Vec::of(&d)).map(|x| x.dv()),
        _ => de_bit(u8::of(&d)).map(|x| x.dv()),
    };
    match r {
        Ok(d) => Exp::Ok(d),
        Err(e) => Exp::Err(kind(e)),
    }
}

/// The fields of a body, or the reason why there are none.
fn dec_body(b: &Body, v: &RV) -> Result<All, Exp> {
    let mut r = All::new();
    match b.form {
        Form::Unit => {
            if !is_null(v) {
                r.err |= TYPE;
            }
        }
        Form::Inner => r.add(dec_default(&b.fields[0].sh, v)),
        Form::Array => {
            let a = match v {
                A(a) => a,
                _ => return Err(Exp::Err(TYPE)),
            };
            let mut it = a.iter();
            for f in &b.fields {
                if f.skip {
                    r.add(Exp::Ok((f.default.unwrap())()));
                } else {
                    match it.next() {
                        Some(x) => r.add(dec_field(f, x)),
                        None => r.err |= MISSING,
                    }
                }
            }
            if it.next().is_some() && !b.allow_unknown {
                r.err |= UNKNOWN;
            }
        }
        Form::Map => {
            let m = match v {
                M(m) => m,
                _ => return Err(Exp::Err(TYPE)),
            };
            let dup = if m.len() < 40 {
                m.iter().enumerate().any(|(i, a)| m[..i].iter().any(|b| a.0 == b.0))
            } else {
                m.iter().map(|e| &e.0).collect::<std::collections::HashSet<_>>().len() < m.len()
            };
            if dup {
                return Err(if b.allow_unknown { Exp::Any } else { Exp::Err(ANYERR) });
            }
            for (k, _) in m {
                if !b.allow_unknown && !b.fields.iter().any(|f| !f.skip && f.key == *k) {
                    r.err |= UNKNOWN;
                }
            }
            for f in &b.fields {
                if f.skip {
                    r.add(Exp::Ok((f.default.unwrap())()));
                } else {
                    match m.iter().find(|e| e.0 == f.key) {
                        Some((_, x)) => r.add(dec_field(f, x)),
                        None => r.add(dec_field(f, &NULL)),
                    }
                }
            }
        }
    }
    Ok(r)
}

// ---------------------------------------------------------------------------------------------

/// What is left of a value after a round trip: skipped fields come back as their defaults.
/// `None` if the value holds a skipped variant or an untagged enum.
pub fn norm(s: &Sh, d: &DV) -> Option<DV> {
    Some(match (s, d) {
        (Sh::Opt(t), DV::Some(x)) => DV::Some(Box::new(norm(t, x)?)),
        (Sh::Vec(t) | Sh::Arr(t, _), DV::Q(a)) => DV::Q(a.iter().map(|x| norm(t, x)).collect::<Option<_>>()?),
        (Sh::Set(t, _), DV::Q(a)) => {
            let mut v = a.iter().map(|x| norm(t, x)).collect::<Option<Vec<_>>>()?;
            v.sort();
            DV::Q(v)
        }
        (Sh::Tup(t), DV::Q(a)) => DV::Q(t.iter().zip(a).map(|(t, x)| norm(t, x)).collect::<Option<_>>()?),
        (Sh::Map(k, v, _), DV::M(m)) => DV::M(
            m.iter()
                .map(|(a, b)| Some((norm(k, a)?, norm(v, b)?)))
                .collect::<Option<_>>()?,
        ),
        (Sh::Def(n), DV::R(f)) => match &def(*n).kind {
            Kind::Struct(b) => DV::R(norm_body(b, f)?),
            _ => bad(d),
        },
        (Sh::Def(n), DV::E(i, f)) => match &def(*n).kind {
            Kind::Enum { vars, untagged, .. } => {
                if vars[*i].skip || *untagged {
                    return None;
                }
                DV::E(*i, norm_body(&vars[*i].body, f)?)
            }
            _ => bad(d),
        },
        (_, d) => d.clone(),
    })
}

fn norm_body(b: &Body, f: &[DV]) -> Option<Vec<DV>> {
    b.fields
        .iter()
        .zip(f)
        .map(|(fld, x)| {
            if fld.skip {
                Some((fld.default.unwrap())())
            } else if fld.ser != Conv::None {
                Some(x.clone())
            } else {
                norm(&fld.sh, x)
            }
        })
        .collect()
}

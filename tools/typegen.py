#!/usr/bin/env python3
"""Generate derived types (and compositions of built-in ones) with tables that describe them.

typegen.py OUT SEED SCALE -> Rust source included by /verif/typed. A fixed part (seed 0) is the same
on every run; the rest follows SEED. What a type means is told twice: by its attributes, to the derive
macro under test, and by its table entry, to the reference encoder and decoder.
"""
import random, sys

WORDS = ["a", "b", "c", "d", "e", "f", "g", "id", "key", "val", "name", "kind", "data", "flag", "list", "aa", "ab",
         "ba", "count", "next", "prev", "owner", "value", "extra", "nonce", "amount", "x", "y", "z", "foo", "bar",
         "foo_bar", "very_long_field_name_number_one", "very_long_field_name_number_two", "r2", "n0", "n1", "t"]
VWORDS = ["A", "B", "C", "Aa", "Ab", "First", "Second", "Third", "Ok", "Error", "None_", "Foo", "Bar", "Baz",
          "Transfer", "Burn", "LongVariantNameForTestingHeads", "X", "Y", "Z", "V1", "V2", "Msg"]


class Ty:
    """A Rust type: source text plus what the generator has to know about it."""

    def __init__(self, src, default=True, null=False, key=False, as_map=False, keys=(), lossy=False, odd=False,
                 eqd=False, name=None, dec=True, enc=True, maybe_empty=True, embeds=0, rd=None):
        self.src = src
        self.rd = default if rd is None else rd   # implements Default
        self.default = default        # Default::default() exists and missing/null gives it
        self.null = null              # may encode as null or undefined
        self.key = key                # Ord + Eq + Hash + Clone: usable in sets and as map key
        self.as_map = as_map          # always encodes as a map
        self.keys = frozenset(keys)   # keys that map may contain
        self.lossy = lossy            # a round trip may lose something the reference does not predict
        self.odd = odd                # its default is not its empty value
        self.eqd = eqd                # PartialEq + Default (for skip_serializing_if)
        self.name = name or src
        self.dec, self.enc = dec, enc
        self.maybe_empty = maybe_empty
        self.embeds = embeds


def prims():
    k = dict(key=True, eqd=True)
    return [Ty(t, **k) for t in ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "bool", "char", "String"]]


PRIMS = prims()
P = {t.src: t for t in PRIMS}
BYTES = Ty("Vec<u8>", key=True, eqd=True)
BYTES.name = "Vec<u8>"
VALUE = Ty("Value", null=True, rd=False)
UNIT = Ty("()", null=True, key=True, eqd=True)


def bytesn(n):
    return Ty("[u8; %d]" % n, key=True, eqd=n <= 32, rd=n <= 32)


def vec(t):
    if t.src == "u8":
        return BYTES
    return Ty("Vec<%s>" % t.src, key=t.key, eqd=t.eqd, lossy=t.lossy, dec=t.dec, enc=t.enc)


def arr(t, n):
    if t.src == "u8":
        return bytesn(n)
    return Ty("[%s; %d]" % (t.src, n), default=False, key=t.key, lossy=t.lossy, dec=t.dec, enc=t.enc)


def opt(t):
    assert not t.null
    return Ty("Option<%s>" % t.src, null=True, key=t.key, eqd=t.eqd, lossy=t.lossy, dec=t.dec, enc=t.enc)


def tup(ts):
    return Ty("(%s,)" % ", ".join(t.src for t in ts), default=all(t.default for t in ts), key=all(t.key for t in ts),
              eqd=all(t.eqd for t in ts), lossy=any(t.lossy for t in ts), dec=all(t.dec for t in ts), enc=all(t.enc for t in ts),
              odd=any(t.odd for t in ts), rd=all(t.rd for t in ts))


def bmap(k, v):
    return Ty("BTreeMap<%s, %s>" % (k.src, v.src), as_map=True, keys=["*"], key=v.key, lossy=v.lossy,
              dec=k.dec and v.dec, enc=k.enc and v.enc)


def hmap(k, v):
    return Ty("HashMap<%s, %s>" % (k.src, v.src), as_map=True, keys=["*"], lossy=v.lossy, dec=k.dec and v.dec,
              enc=k.enc and v.enc)


def bset(k):
    return Ty("BTreeSet<%s>" % k.src, key=True, eqd=k.eqd)


def hset(k):
    return Ty("HashSet<%s>" % k.src)


def rstr(s):
    out = '"'
    for c in s:
        if c in '"\\' or ord(c) < 32 or ord(c) > 126:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def key_lit(k):
    return rstr(k) if isinstance(k, str) else "%d" % k


def key_rv(k):
    return "T(%s.into())" % rstr(k) if isinstance(k, str) else "U(%d)" % k


class Field:
    def __init__(self, ident, ty, rename=None, optional=False, skip=False, skip_if=False, ser="None", de="None",
                 ty_src=None):
        self.ident, self.ty, self.rename = ident, ty, rename
        self.optional, self.skip, self.skip_if, self.ser, self.de = optional, skip, skip_if, ser, de
        self.ty_src = ty_src or ty.src   # as written in a generic definition

    @property
    def key(self):
        return self.rename if self.rename is not None else self.ident

    def attrs(self):
        a = []
        if self.rename is not None:
            a.append("rename = " + key_lit(self.rename))
        if self.optional:
            a.append("optional")
        if self.skip:
            a.append("skip")
        if self.skip_if:
            a.append('skip_serializing_if = "is_default"')
        if self.ser != "None":
            a.append('serialize_with = "ser_%s"' % self.ser.lower())
        if self.de != "None":
            a.append('deserialize_with = "de_%s"' % self.de.lower())
        return "#[cbor(%s)] " % ", ".join(a) if a else ""

    def table(self):
        d = "Some(dflt::<%s>)" % self.ty.src if self.ty.rd and self.needs_default() else "None"
        return ("Fld { name: %s, key: %s, sh: <%s as Dyn>::sh(), optional: %s, skip: %s, skip_if_default: %s, "
                "ser: Conv::%s, de: Conv::%s, default: %s }" % (
                    rstr(self.ident or "_"), key_rv(self.key if self.key is not None else ""), self.ty.src,
                    b(self.optional), b(self.skip), b(self.skip_if), self.ser, self.de, d))

    def needs_default(self):
        return self.skip or self.optional


def b(x):
    return "true" if x else "false"


class Body:
    def __init__(self, form, fields=(), tuple_=False, allow_unknown=False):
        self.form, self.fields, self.tuple_, self.allow_unknown = form, list(fields), tuple_, allow_unknown

    def decl(self):
        if self.form == "Unit" or (not self.fields and not self.tuple_ and self.form == "UnitMap"):
            return ""
        if self.tuple_:
            return "(%s)" % ", ".join(f.attrs() + f.ty_src for f in self.fields)
        return " { %s }" % ", ".join("%s%s: %s" % (f.attrs(), f.ident, f.ty_src) for f in self.fields)

    def table(self):
        form = "Map" if self.form == "UnitMap" else self.form
        return "Body { fields: Vec::from([%s]), form: Form::%s, allow_unknown: %s }" % (
            ", ".join(f.table() for f in self.fields), form, b(self.allow_unknown))


class Variant:
    def __init__(self, ident, body, rename=None, disc=None, as_array=False, as_struct=False, skip=False, embed=False,
                 missing=False):
        self.ident, self.body, self.rename, self.disc = ident, body, rename, disc
        self.as_array, self.as_struct, self.skip, self.embed, self.missing = as_array, as_struct, skip, embed, missing

    @property
    def key(self):
        return self.rename if self.rename is not None else self.ident

    def attrs(self):
        a = []
        if self.rename is not None:
            a.append("rename = " + key_lit(self.rename))
        for n in ("as_array", "as_struct", "skip", "embed", "missing"):
            if getattr(self, n):
                a.append(n)
        if self.body.allow_unknown:
            a.append("allow_unknown")
        return "#[cbor(%s)] " % ", ".join(a) if a else ""

    def decl(self):
        return "%s%s%s%s" % (self.attrs(), self.ident, self.body.decl(), " = %d" % self.disc if self.disc is not None else "")

    def table(self):
        return "Var { name: %s, key: %s, body: %s, disc: %s, skip: %s, embed: %s, missing: %s }" % (
            rstr(self.ident), key_rv(self.key), self.body.table(),
            "Some(%d)" % self.disc if self.disc is not None else "None", b(self.skip), b(self.embed), b(self.missing))


class Gen:
    def __init__(self):
        self.items = []     # Rust items
        self.defs = []      # table expressions
        self.roots = []     # (type, tags, group)
        self.types = []     # derived Ty
        self.n = 0
        self.feat = {}

    def use(self, *fs):
        for f in fs:
            if f:
                self.feat[f] = self.feat.get(f, 0) + 1

    # -- emission ---------------------------------------------------------------------------------

    def struct(self, name, body, attrs=(), derive_default=True, custom_default=None, no_default=False, extra_derives=(),
               enc=True, dec=True, odd=False, key=False, lossy=False, generic=None, inst=None, emit=True, where="",
               transparent=False):
        """generic: (decl "<T: ..>", use "<T>"); inst: e.g. "S<u64>" for the table of one instance."""
        full = inst or name
        ders = []
        if enc:
            ders.append("cbor::Encode")
        if dec:
            ders.append("cbor::Decode")
        if derive_default and custom_default is None and not no_default:
            ders.append("Default")
        ders += list(extra_derives)
        a = list(attrs)
        if no_default:
            a.append("no_default")
        if body.allow_unknown:
            a.append("allow_unknown")
        semi = ";" if body.form == "Unit" or body.tuple_ else ""
        if emit:
            at = "#[cbor(%s)]\n" % ", ".join(a) if a else ""
            g = generic[0] if generic else ""
            self.items.append("#[derive(%s)]\n%spub struct %s%s%s%s%s%s" % (
                ", ".join(ders), at, name, g, body.decl() if body.tuple_ or body.form == "Unit" else where + body.decl(),
                where if body.tuple_ else "", semi, ""))
            if custom_default:
                self.items.append("impl Default for %s { fn default() -> Self { %s } }" % (name, custom_default))
        i = len(self.defs)
        if body.form == "Unit":
            dv, of = "DV::R(Vec::new())", name
        elif body.tuple_:
            dv = "DV::R(Vec::from([%s]))" % ", ".join("self.%d.dv()" % k for k in range(len(body.fields)))
            of = "%s(%s)" % (name, ", ".join("Dyn::of(&f[%d])" % k for k in range(len(body.fields))))
        else:
            dv = "DV::R(Vec::from([%s]))" % ", ".join("self.%s.dv()" % f.ident for f in body.fields)
            of = "%s { %s }" % (name, ", ".join("%s: Dyn::of(&f[%d])" % (f.ident, k) for k, f in enumerate(body.fields)))
        self.items.append(
            "impl Dyn for %s {\n fn sh() -> Sh { Sh::Def(%d) }\n fn dv(&self) -> DV { %s }\n"
            " fn of(d: &DV) -> Self { match d { DV::R(f) => { let _ = f; %s } _ => bad(d) } }\n}" % (full, i, dv, of))
        has_default = not no_default
        as_map = body.form in ("Map", "UnitMap")
        self.defs.append("Def { name: %s, kind: Kind::Struct(%s), default: %s, as_map: %s, f13: false }" % (
            rstr(full), body.table(), "Some(dflt::<%s>)" % full if has_default else "None", b(as_map)))
        null = body.form == "Unit" or (body.form == "Inner" and body.fields[0].ty.null)
        keys = [f.key for f in body.fields if not f.skip] if as_map else []
        t = Ty(full, default=has_default, null=null, key=key, as_map=as_map, keys=keys, odd=odd,
               lossy=lossy or any(f.ty.lossy for f in body.fields), enc=enc, dec=dec)
        t.body = body
        return t

    def enum(self, name, variants, tag=None, untagged=False, attrs=(), default=None, with_default=False, enc=True,
             dec=True, extra_derives=(), key=False, generic=None, inst=None, emit=True, repr_=None, f13=False):
        full = inst or name
        ders = (["cbor::Encode"] if enc else []) + (["cbor::Decode"] if dec else []) + list(extra_derives)
        a = list(attrs)
        if tag is not None:
            a.append("tag = " + key_lit(tag))
        if untagged:
            a.append("untagged")
        if with_default:
            a.append("with_default")
        if emit:
            g = generic[0] if generic else ""
            self.items.append("#[derive(%s)]\n%s%spub enum %s%s { %s }" % (
                ", ".join(ders), "#[repr(%s)]\n" % repr_ if repr_ else "", "#[cbor(%s)]\n" % ", ".join(a) if a else "",
                name, g, ", ".join(v.decl() for v in variants)))
            if default:
                self.items.append("impl Default for %s { fn default() -> Self { %s } }" % (name, default))
        i = len(self.defs)
        to, of = [], []
        for n, v in enumerate(variants):
            fs = v.body.fields
            bind = ["x%d" % k for k in range(len(fs))]
            vec_ = "Vec::from([%s])" % ", ".join(x + ".dv()" for x in bind) if fs else "Vec::new()"
            if not fs and not v.body.tuple_ and v.body.form in ("Unit", "UnitMap"):
                pat, con = v.ident, v.ident
            elif v.body.tuple_:
                pat = "%s(%s)" % (v.ident, ", ".join(bind))
                con = "%s(%s)" % (v.ident, ", ".join("Dyn::of(&f[%d])" % k for k in range(len(fs))))
            else:
                pat = "%s { %s }" % (v.ident, ", ".join("%s: %s" % (f.ident, x) for f, x in zip(fs, bind)))
                con = "%s { %s }" % (v.ident, ", ".join("%s: Dyn::of(&f[%d])" % (f.ident, k) for k, f in enumerate(fs)))
            to.append("%s::%s => DV::E(%d, %s)" % (name, pat, n, vec_))
            of.append("DV::E(%d, f) => { let _ = f; %s::%s }" % (n, name, con))
        self.items.append("impl Dyn for %s {\n fn sh() -> Sh { Sh::Def(%d) }\n fn dv(&self) -> DV { match self { %s } }\n"
                          " fn of(d: &DV) -> Self { match d { %s, _ => bad(d) } }\n}" % (
                              full, i, ", ".join(to), ", ".join(of)))

        def nonunit_map(v):
            return v.body.form != "Unit" or v.skip or v.embed or (tag is not None)
        claims = not untagged and all(nonunit_map(v) for v in variants)
        f13 = claims and any(v.skip or v.embed for v in variants)
        self.defs.append("Def { name: %s, kind: Kind::Enum { vars: Vec::from([%s]), tag: %s, untagged: %s }, default: %s, "
                         "as_map: %s, f13: %s }" % (
                             rstr(full), ", ".join(v.table() for v in variants),
                             "Some(%s)" % key_rv(tag) if tag is not None else "None", b(untagged),
                             "Some(dflt::<%s>)" % full if with_default else "None", b(claims), b(f13)))
        null = any(v.skip or (v.embed and v.body.fields[0].ty.null) for v in variants)
        keys = set()
        if tag is not None:
            keys.add(tag)
            for v in variants:
                if v.body.form == "Inner":
                    keys |= v.body.fields[0].ty.keys
                else:
                    keys |= {f.key for f in v.body.fields}
        else:
            keys |= {v.key for v in variants}
            for v in variants:
                if v.embed:
                    keys |= v.body.fields[0].ty.keys
        lossy = untagged or any(v.embed for v in variants) or any(f.ty.lossy for v in variants for f in v.body.fields)
        t = Ty(full, default=with_default, null=null, key=key, as_map=claims and not f13, keys=keys, lossy=lossy,
               odd=True, enc=enc, dec=dec and not untagged)
        t.embeds = sum(1 for v in variants if v.embed)
        return t

    def root(self, t, tags):
        self.roots.append((t, tags))

    # -- random types -----------------------------------------------------------------------------

    def rand_ty(self, r, depth=0, key=False, nonnull=False, need_default=False, need_rd=False):
        for _ in range(50):
            t = self._rand_ty(r, depth, key)
            if key and not t.key:
                continue
            if nonnull and t.null:
                continue
            if need_default and (not t.default):
                continue
            if need_rd and not t.rd:
                continue
            if t.dec and t.enc:
                return t
        return P["u64"]

    def _rand_ty(self, r, depth, key):
        x = r.random()
        if depth >= 3 or x < 0.42:
            return r.choice(PRIMS)
        if x < 0.50:
            return r.choice([BYTES, bytesn(r.choice([0, 1, 4, 20, 32, 33, 64])), UNIT, VALUE, BYTES])
        if x < 0.72 and self.types:
            t = r.choice(self.types)
            if not key or t.key:
                return t
        y = r.random()
        if y < 0.25:
            return opt(self.rand_ty(r, depth + 1, key=key, nonnull=True))
        if y < 0.50:
            return vec(self.rand_ty(r, depth + 1, key=key))
        if y < 0.60:
            return arr(self.rand_ty(r, depth + 1, key=key), r.choice([0, 1, 2, 3, 5]))
        if y < 0.72:
            return tup([self.rand_ty(r, depth + 1, key=key) for _ in range(r.choice([1, 2, 2, 3, 4]))])
        if y < 0.82:
            return bmap(self.rand_ty(r, depth + 2, key=True), self.rand_ty(r, depth + 1, key=key))
        if y < 0.90:
            return hmap(self.rand_ty(r, depth + 2, key=True), self.rand_ty(r, depth + 1))
        if y < 0.95:
            return bset(self.rand_ty(r, depth + 2, key=True))
        return hset(self.rand_ty(r, depth + 2, key=True))

    def key_style(self, r):
        self.near = r.choice([2**r.randrange(3, 64) - 4, 2**63 - 4, 2**64 - 8, 2**31 - 4, 2**32 - 4, r.randrange(2**64)])
        return r.choices(["mixed", "ints", "near"], [80, 12, 8])[0]

    def rand_key(self, r, ident, taken, style="mixed"):
        for _ in range(20):
            x = r.random()
            if style == "near" and x < 0.9:
                k = self.near + r.randrange(8)
                k = k if k < 2**64 else r.randrange(40)
            elif style == "ints" and x < 0.9:
                k = r.choice([0, r.randrange(64), 2**r.randrange(1, 64) - r.randrange(2), 2**r.randrange(64) + r.randrange(3),
                              r.randrange(2**64), 2**63 + r.randrange(5), 2**64 - 1 - r.randrange(5)])
            elif x < 0.6:
                k = None
            elif x < 0.8:
                k = r.choice(["", "a", "b", "0", "1", "id", "v", "kk", "k" * 23, "k" * 24, "k" * 30, "\u00e9", "\U0001f600",
                              "a b", "A", "type", "fn", "z" * 5, "x-y", "\"q\"", ident + "x", ident[:1], ident.upper()])
            else:
                k = r.choice([0, 1, 2, 3, 10, 23, 24, 25, 100, 255, 256, 65535, 65536, 4294967295, 4294967296, 2**63 - 1,
                              2**63, 2**64 - 1, r.randrange(1000)])
            kk = ident if k is None else k
            if kk not in taken:
                taken.add(kk)
                return k
        k = "u%d" % r.randrange(10**9)
        taken.add(k)
        return k

    def rand_fields(self, r, n, array, taken=None, tuple_=False, key=False):
        taken = set() if taken is None else taken
        idents = r.sample(WORDS, n)
        taken_idents = set()
        out = []
        style = self.key_style(r)
        for ident in idents:
            rename = None if tuple_ else self.rand_key(r, ident, taken, style)
            if array:
                rename = None
            f = Field(None if tuple_ else ident, P["u64"], rename=rename)
            if not key and r.random() < 0.10:
                f.skip = True
                f.ty = self.rand_ty(r, 1, need_rd=True)
            elif r.random() < 0.12:
                ty, c = r.choice([("u64", "Dec"), ("String", "Rev"), ("bool", "Bit")])
                f.ty, f.ser, f.de = P[ty], c, c
                # An omitted or null decimal string is the empty string, which is no number.
                if not array and c != "Dec" and r.random() < 0.4:
                    f.optional = True
            elif not array and r.random() < 0.45:
                f.optional = True
                for _ in range(40):
                    f.ty = self.rand_ty(r, 1, need_default=True, key=key)
                    if not f.ty.odd:
                        break
                else:
                    f.ty = P["u32"]
                if f.ty.eqd and r.random() < 0.2:
                    f.skip_if = True
            else:
                f.ty = self.rand_ty(r, 1, key=key)
            f.ty_src = f.ty.src
            self.use("field." + ("skip" if f.skip else "optional" if f.optional else "plain"),
                     f.skip_if and "field.skip_serializing_if", f.ser != "None" and "field.with",
                     isinstance(f.rename, str) and "field.rename.text", isinstance(f.rename, int) and "field.rename.int")
            out.append(f)
        return out

    def rand_struct(self, r, name):
        style = r.choices(["named", "tuple", "newtype", "transparent", "unit", "array"], [60, 12, 6, 8, 3, 11])[0]
        allow = r.random() < 0.25
        key = r.random() < 0.12
        if style == "named":
            body = Body("Map", self.rand_fields(r, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 26]) if not key else 2, False, key=key),
                        allow_unknown=allow)
        elif style == "array":
            body = Body("Array", self.rand_fields(r, r.choice([0, 1, 2, 3, 5]), True, key=key), allow_unknown=allow)
        elif style == "tuple":
            body = Body("Array", self.rand_fields(r, r.choice([0, 2, 3, 4]), True, tuple_=True, key=key), tuple_=True,
                        allow_unknown=allow)
        elif style == "newtype":
            fs = self.rand_fields(r, 1, True, tuple_=True, key=key)
            body = Body("Array", fs, tuple_=True, allow_unknown=allow)
        elif style == "transparent":
            t = self.rand_ty(r, 1, key=key)
            body = Body("Inner", [Field(None, t)], tuple_=True)
        else:
            body = Body("Unit")
        allow = body.allow_unknown
        can_default = all(f.ty.default and f.ty.rd for f in body.fields)
        null = body.form == "Unit" or (body.form == "Inner" and body.fields[0].ty.null)
        no_default = (not null) and (not can_default or r.random() < 0.12)
        if null and not can_default:
            body = Body("Unit")
            can_default = True
        custom, odd = None, any(f.ty.odd for f in body.fields)
        if not no_default and body.form == "Map" and r.random() < 0.12:
            prim = [f for f in body.fields if f.ty.src in ("u64", "u32", "i64", "bool", "String")]
            if prim:
                odd = True
                vals = {"u64": "77", "u32": "7", "i64": "-5", "bool": "true", "String": "\"dflt\".to_string()"}
                custom = "%s { %s }" % (name, ", ".join(
                    "%s: %s" % (f.ident, vals[f.ty.src] if f in prim else "Default::default()") for f in body.fields))
        attrs = []
        if style == "array":
            attrs.append("as_array")
        if style == "transparent" and body.form == "Inner":
            attrs.append("transparent")
        ders = ["Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"] if key else []
        key = key and not any(f.skip for f in body.fields)
        self.use("struct." + style, allow and "struct.allow_unknown", no_default and "struct.no_default",
                 custom and "struct.custom_default")
        return self.struct(name, body, attrs, derive_default=True, custom_default=custom, no_default=no_default,
                           extra_derives=ders, odd=odd, key=key), style

    def rand_enum(self, r, name):
        repr_ = r.choices(["external", "tagged", "untagged", "disc", "units"], [46, 27, 7, 10, 10])[0]
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
        idents = r.sample(VWORDS, n)
        taken, vs = set(), []
        key = repr_ in ("disc", "units") and r.random() < 0.5
        tag = None
        if repr_ == "tagged":
            tag = r.choice(["kind", "v", "type", "t", "", "zz", "a_tag", 0, 1, 24, 1000, "m" * 25])
        have_missing = False
        style = self.key_style(r)
        for k, ident in enumerate(idents):
            if repr_ == "disc":
                vs.append(Variant(ident, Body("Unit"), disc=0))
                continue
            rename = self.rand_key(r, ident, taken, style)
            if repr_ == "units":
                vs.append(Variant(ident, Body("Unit"), rename=rename))
                continue
            v = Variant(ident, Body("Unit"), rename=rename)
            x = r.random()
            if repr_ == "tagged":
                if x < 0.2:
                    v.body = Body("UnitMap")
                elif x < 0.45:
                    c = [t for t in self.types if t.as_map and t.enc and t.dec and "*" not in t.keys and tag not in t.keys]
                    if c:
                        v.body = Body("Inner", [Field(None, r.choice(c))], tuple_=True)
                    else:
                        v.body = Body("UnitMap")
                else:
                    tk = {tag}
                    fs = self.rand_fields(r, r.choice([0, 1, 2, 3, 5]), False, taken=tk)
                    for f in fs:
                        if f.key == tag:
                            f.rename = "renamed_%d" % r.randrange(10**6)
                    v.body = Body("Map", fs, allow_unknown=r.random() < 0.25)
                if not have_missing and r.random() < 0.25:
                    v.missing = have_missing = True
            else:
                if x < 0.2:
                    pass
                elif x < 0.42:
                    v.body = Body("Inner", [Field(None, self.rand_ty(r, 1))], tuple_=True)
                elif x < 0.55:
                    v.body = Body("Array", self.rand_fields(r, r.choice([2, 2, 3]), True, tuple_=True), tuple_=True,
                                  allow_unknown=r.random() < 0.2)
                elif x < 0.80:
                    v.body = Body("Map", self.rand_fields(r, r.choice([0, 1, 2, 3, 4]), False), allow_unknown=r.random() < 0.25)
                elif x < 0.87:
                    v.body = Body("Array", self.rand_fields(r, r.choice([1, 2, 3]), True), allow_unknown=r.random() < 0.2)
                    v.as_array = True
                elif x < 0.92:
                    v.body = Body("UnitMap")
                    v.as_struct = True
                elif repr_ == "external":
                    c = [t for t in self.types if t.enc and t.dec and not t.null and t.embeds == 0]
                    if c:
                        v.body = Body("Inner", [Field(None, r.choice(c))], tuple_=True)
                        v.embed = True
                        v.rename = None
                if repr_ == "external" and not v.embed and k > 0 and r.random() < 0.07:
                    v.skip = True
            vs.append(v)
            self.use("variant." + v.body.form, v.as_array and "variant.as_array", v.as_struct and "variant.as_struct",
                     v.embed and "variant.embed", v.skip and "variant.skip", v.missing and "variant.missing",
                     v.body.allow_unknown and "variant.allow_unknown", isinstance(v.rename, str) and "variant.rename.text",
                     isinstance(v.rename, int) and "variant.rename.int")
        if repr_ == "disc":
            ds = r.sample([0, 1, 2, 3, 5, 10, 23, 24, 255, 256, 65535, 65536, 2147483647, 7, -1, -2, -25, -300], n)
            for v, d in zip(vs, ds):
                v.disc = d
        self.use("enum." + repr_)
        with_default, default = False, None
        units = [v for v in vs if v.body.form in ("Unit", "UnitMap") and not v.skip]
        if units and repr_ != "untagged" and r.random() < 0.4:
            default = "%s::%s" % (name, units[0].ident)
            with_default = r.random() < 0.7
            self.use(with_default and "enum.with_default")
        ders = ["Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"] if key else []
        return self.enum(name, vs, tag=tag, untagged=repr_ == "untagged", default=default, with_default=with_default,
                         dec=repr_ != "untagged", extra_derives=ders, key=key), repr_

    def rand_def(self, r, prefix):
        self.n += 1
        name = "%s%d" % (prefix, self.n)
        if r.random() < 0.55:
            t, s = self.rand_struct(r, name)
        else:
            t, s = self.rand_enum(r, name)
        self.types.append(t)
        self.root(t, "derived")
        return t


def builtins(g, r, n):
    """Compositions of built-in types."""
    fixed = PRIMS + [BYTES, VALUE, UNIT] + [bytesn(k) for k in (0, 1, 4, 20, 32, 33)]
    fixed += [opt(P["u64"]), opt(BYTES), opt(P["String"]), opt(vec(P["u16"])), vec(P["u64"]), vec(P["i8"]), vec(P["String"]), vec(BYTES),
              vec(opt(P["u8"])), vec(vec(P["u32"])), vec(UNIT), vec(VALUE), vec(P["bool"]), vec(P["char"]), vec(P["u128"]),
              arr(P["u16"], 0), arr(P["u64"], 1), arr(P["i32"], 3), arr(opt(P["u8"]), 2), arr(arr(P["u16"], 2), 2), arr(BYTES, 2),
              arr(P["String"], 4), arr(P["u32"], 24), arr(bytesn(4), 2), arr(P["u64"], 256), arr(P["bool"], 65), arr(P["u16"], 300), arr(P["i8"], 33),
              arr(P["String"], 24), bytesn(64), bytesn(65), bytesn(128), bytesn(255), bytesn(256), bytesn(300),
              tup([P["u64"]]), tup([P["u64"], P["String"]]), tup([P["i16"], BYTES, P["bool"]]), tup([UNIT, opt(P["u8"])]),
              tup([P["u8"], P["u16"], P["u32"], P["u64"]]), tup([P["i8"], P["i16"], P["i32"], P["i64"], P["u128"]]),
              tup([P["u8"]] * 6), tup([P["char"], P["bool"], P["String"], BYTES, UNIT, P["u8"], P["i64"]]),
              tup([P["u16"]] * 8), tup([P["u64"]] * 9), tup([P["u8"], P["String"]] * 5), tup([tup([P["u8"]]), tup([P["u8"], P["u8"]])]),
              tup([P["u128"]] * 10), tup([P["String"]] * 7), tup([bytesn(64), bytesn(128)]), tup([P["u128"], tup([P["u128"]] * 8)]),
              bmap(P["u64"], P["u64"]), bmap(P["String"], P["String"]), bmap(P["String"], BYTES), bmap(BYTES, P["i64"]),
              bmap(P["i16"], opt(P["bool"])), bmap(tup([P["u8"], P["String"]]), P["u32"]), bmap(P["bool"], VALUE),
              bmap(P["char"], P["char"]), bmap(P["u128"], UNIT), bmap(bytesn(4), bmap(P["u8"], P["u8"])), bmap(opt(P["u32"]), P["i8"]),
              bmap(vec(P["u16"]), P["bool"]), bmap(bset(P["u8"]), P["u8"]), bmap(bmap(P["u8"], P["u8"]), P["u8"]),
              hmap(P["u64"], P["String"]), hmap(P["String"], vec(P["u64"])), hmap(BYTES, hmap(P["u8"], P["u8"])),
              hmap(P["i32"], P["i32"]), hmap(tup([P["u8"], P["u8"]]), P["bool"]), hmap(bmap(P["u8"], P["u8"]), P["u8"]),
              bset(P["u64"]), bset(P["String"]), bset(P["i8"]), bset(tup([P["u8"], P["bool"]])), bset(BYTES), bset(vec(P["i16"])),
              bset(P["char"]), bset(P["u128"]), bset(opt(P["u16"])),
              hset(P["u64"]), hset(P["String"]), hset(P["i16"]), hset(bytesn(4)), hset(BYTES), hset(bytesn(40)), hset(vec(P["u16"])), hset(opt(BYTES)), bset(bytesn(40)),
              hmap(bytesn(40), P["u8"]), bmap(bytesn(40), P["u8"]), hset(tup([P["u8"], P["String"]])), hset(P["u128"]),
              hset(bset(P["u8"])), hset(P["bool"]), hset(P["char"]), hset(opt(P["i8"])), hset(bmap(P["u8"], P["u8"])),
              vec(hset(P["u8"])), vec(tup([P["u64"], hmap(P["u8"], P["u8"])])), opt(hset(P["u16"])), opt(tup([P["u8"], P["u8"]])),
              opt(bmap(P["u8"], P["u8"])), opt(arr(P["u16"], 3)), opt(bytesn(4)), opt(P["bool"]), opt(P["char"]), opt(P["i64"]),
              opt(P["u128"]), opt(bset(P["u8"]))]
    seen = set()
    for t in fixed:
        if t.src not in seen:
            seen.add(t.src)
            g.root(t, "builtin")
    old, g.types = g.types, []
    while n > 0:
        t = g.rand_ty(r, 0)
        if t.src not in seen and len(t.src) > 10:
            seen.add(t.src)
            g.root(t, "builtin")
        n -= 1
    g.types = old


def handmade(g):
    """Types that pin down one feature each, and the ones users write."""
    F, U64, STR, BOOL = Field, P["u64"], P["String"], P["bool"]
    D = []

    def add(t, tags="derived"):
        D.append(t)
        g.types.append(t)
        g.root(t, tags)
        return t

    ORD = ["Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]
    add(g.struct("HUnit", Body("Unit")))
    add(g.struct("HEmpty", Body("Map")))
    add(g.struct("HEmptyTuple", Body("Array", tuple_=True)))
    add(g.struct("HNew", Body("Array", [F(None, U64)], tuple_=True)))
    tr = add(g.struct("HTrans", Body("Inner", [F(None, U64)], tuple_=True), ["transparent"], extra_derives=ORD, key=True))
    add(g.struct("HTransBytes", Body("Inner", [F(None, BYTES)], tuple_=True), ["transparent"], extra_derives=ORD, key=True))
    add(g.struct("HTransOpt", Body("Inner", [F(None, opt(U64))], tuple_=True), ["transparent"]))
    add(g.struct("HTransNoDef", Body("Inner", [F(None, STR)], tuple_=True), ["transparent"], no_default=True))
    key = add(g.struct("HKey", Body("Map", [F("b", P["u8"]), F("a", STR)]), extra_derives=ORD, key=True))
    add(g.struct("HKeyArr", Body("Array", [F("x", P["i16"]), F("y", P["u8"])]), ["as_array"], extra_derives=ORD, key=True))
    # Every scalar as a field, plain and optional.
    add(g.struct("HScalars", Body("Map", [F("f%d" % i, t) for i, t in enumerate(PRIMS + [BYTES, bytesn(4)])])))
    add(g.struct("HScalarsOpt", Body("Map", [F("f%d" % i, t, optional=True) for i, t in enumerate(PRIMS + [BYTES])])))
    add(g.struct("HScalarsOption", Body("Map", [F("f%d" % i, opt(t), optional=i % 2 == 0) for i, t in enumerate(PRIMS + [BYTES])])))
    add(g.struct("HScalarsArr", Body("Array", [F("f%d" % i, t) for i, t in enumerate(PRIMS + [BYTES])]), ["as_array"]))
    # Key order: text of several lengths, integers of every width, mixed.
    add(g.struct("HKeys", Body("Map", [F("f%d" % i, U64, rename=k) for i, k in enumerate(
        ["b", "a", "aa", "", "z", "B", "k" * 23, "k" * 24, 0, 23, 24, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**64 - 1])])))
    add(g.struct("HKeysBig", Body("Map", [F("f%d" % i, U64, rename=k, optional=i % 3 == 0) for i, k in enumerate(
        [127, 128, 32767, 32768, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1])])))
    add(g.struct("HKeysLoose", Body("Map", [F("f%d" % i, U64, rename=k, optional=i % 2 == 0) for i, k in enumerate(
        ["m", "n", "mm", "c", 7, 300, "k" * 24, 70000])], allow_unknown=True)))
    add(g.struct("HLoose", Body("Map", [F("foo", U64), F("bar", STR, optional=True)], allow_unknown=True)))
    add(g.struct("HLooseArr", Body("Array", [F("foo", U64), F("bar", STR)], allow_unknown=True), ["as_array"]))
    add(g.struct("HLooseTup", Body("Array", [F(None, U64), F(None, BOOL)], tuple_=True, allow_unknown=True)))
    add(g.struct("HLooseEmpty", Body("Map", [], allow_unknown=True)))
    add(g.struct("HSkip", Body("Map", [F("a", U64), F("s", STR, skip=True), F("t", vec(U64), skip=True), F("z", BOOL)])))
    add(g.struct("HSkipOnly", Body("Map", [F("s", STR, skip=True)])))
    add(g.struct("HSkipArr", Body("Array", [F("s", STR, skip=True), F("a", U64), F("t", U64, skip=True), F("b", U64)]), ["as_array"]))
    add(g.struct("HSkipTup", Body("Array", [F(None, U64), F(None, STR, skip=True), F(None, BOOL)], tuple_=True)))
    add(g.struct("HNoDef", Body("Map", [F("a", U64), F("b", opt(U64), optional=True)]), no_default=True))
    odd = add(g.struct("HOddDef", Body("Map", [F("a", U64), F("b", STR)]),
                       custom_default="HOddDef { a: 42, b: \"x\".to_string() }", odd=True))
    add(g.struct("HHolder", Body("Map", [F("nodef", D[-2]), F("odd", odd), F("unit", UNIT), F("arr", arr(P["u16"], 2))]), no_default=True))
    add(g.struct("HLongArrays", Body("Map", [F("a", bytesn(64)), F("b", bytesn(65)), F("c", bytesn(256)), F("d", bytesn(300)),
                                             F("e", bytesn(96))]), no_default=True))
    add(g.struct("HLongArraysArr", Body("Array", [F("a", bytesn(65)), F("b", bytesn(200)), F("n", U64)]), ["as_array"], no_default=True))
    add(g.struct("HWide", Body("Map", [F("a", tup([P["u128"]] * 10)), F("b", tup([STR] * 7)), F("c", bytesn(200)),
                                      F("d", tup([U64, tup([BYTES] * 6)]), optional=True), F("e", tup([P["u8"]] * 5))]), no_default=True))
    add(g.struct("HWideArr", Body("Array", [F("a", tup([STR, tup([STR] * 9)])), F("b", tup([opt(STR)] * 8)), F("c", U64)]), ["as_array"]))
    add(g.struct("HWith", Body("Map", [F("d", U64, ser="Dec", de="Dec"), F("r", STR, ser="Rev", de="Rev"), F("b", BOOL, ser="Bit", de="Bit"),
                                       F("ro", STR, ser="Rev", de="Rev", optional=True), F("bo", BOOL, ser="Bit", de="Bit", optional=True)])))
    add(g.struct("HWithArr", Body("Array", [F("d", U64, ser="Dec", de="Dec"), F("b", BOOL, ser="Bit", de="Bit")]), ["as_array"]))
    add(g.struct("HSkipIf", Body("Map", [F("a", U64, optional=True, skip_if=True), F("v", vec(P["u16"]), optional=True, skip_if=True),
                                         F("s", STR, optional=True, skip_if=True, rename="k"), F("z", U64)])))
    add(g.struct("HSkipIfAll", Body("Map", [F("o", U64, optional=True), F("a", U64, optional=True, skip_if=True), F("p", STR, optional=True),
                                            F("v", vec(P["u16"]), optional=True, skip_if=True), F("b", BOOL, optional=True, skip_if=True),
                                            F("m", bmap(U64, U64), optional=True, skip_if=True)])))
    add(g.struct("HValue", Body("Map", [F("v", VALUE), F("w", VALUE, optional=True), F("l", vec(VALUE))]), derive_default=True, no_default=True))
    add(g.struct("HMaps", Body("Map", [F("m", bmap(STR, U64), optional=True), F("h", hmap(U64, BYTES)), F("s", bset(STR)), F("t", hset(U64), optional=True),
                                       F("k", bmap(key, key))])))
    add(g.struct("HBig", Body("Map", [F("field_%02d" % i, P["u16"], optional=i % 3 == 0) for i in range(30)])))
    # Recursion through containers.
    i = len(g.defs)
    rec = Ty("HTree", as_map=True, keys=["v", "kids", "named"])
    add(g.struct("HTree", Body("Map", [F("v", U64, optional=True), F("kids", Ty("Vec<HTree>"), optional=True),
                                       F("named", Ty("BTreeMap<String, HTree>"), optional=True)])))
    # Enums.
    add(g.enum("HE", [Variant("A", Body("Unit")), Variant("B", Body("Inner", [F(None, U64)], tuple_=True)),
                      Variant("C", Body("Array", [F(None, U64), F(None, STR)], tuple_=True)),
                      Variant("D", Body("Map", [F("x", U64), F("y", STR, optional=True)])),
                      Variant("E", Body("Array", [F("x", U64), F("y", STR)]), as_array=True),
                      Variant("F", Body("UnitMap"), as_struct=True),
                      Variant("G", Body("Map", [F("x", U64)], allow_unknown=True)),
                      Variant("H", Body("Inner", [F(None, opt(U64))], tuple_=True)),
                      Variant("I", Body("Inner", [F(None, UNIT)], tuple_=True))]))
    add(g.enum("HUnits", [Variant("A", Body("Unit")), Variant("B", Body("Unit"), rename="bee"), Variant("C", Body("Unit"), rename=3),
                          Variant("Aa", Body("Unit"))], extra_derives=ORD, key=True))
    add(g.enum("HDisc", [Variant("A", Body("Unit"), disc=1), Variant("B", Body("Unit"), disc=2), Variant("C", Body("Unit"), disc=24),
                         Variant("D", Body("Unit"), disc=-1), Variant("E", Body("Unit"), disc=65536)], extra_derives=ORD, key=True))
    add(g.enum("HUnitDef", [Variant("A", Body("Unit")), Variant("B", Body("Inner", [F(None, STR)], tuple_=True))],
               default="HUnitDef::B(\"d\".to_string())", with_default=True))
    add(g.enum("HSkipVar", [Variant("A", Body("Unit")), Variant("B", Body("Unit"), skip=True),
                            Variant("C", Body("Inner", [F(None, U64)], tuple_=True), skip=True),
                            Variant("D", Body("Inner", [F(None, U64)], tuple_=True))]))
    inner = add(g.struct("HInner", Body("Map", [F("p", U64), F("q", STR, optional=True)])))
    tg = add(g.enum("HTag", [Variant("A", Body("UnitMap")), Variant("B", Body("Inner", [F(None, inner)], tuple_=True)),
                             Variant("C", Body("Map", [F("x", U64), F("y", U64, optional=True)])),
                             Variant("D", Body("Map", [F("x", U64), F("z", U64, optional=True)], allow_unknown=True)),
                             Variant("E", Body("UnitMap"), rename="A1")], tag="kind"))
    add(g.enum("HTagInt", [Variant("A", Body("Map", [F("b", U64), F("a", STR)]), rename=1),
                           Variant("B", Body("Map", [F("b", U64), F("a", STR)]), rename=2)], tag=0))
    add(g.enum("HTagMissing", [Variant("Old", Body("Map", [F("a", U64)]), missing=True), Variant("New", Body("Map", [F("a", U64), F("b", U64)]))],
               tag="v"))
    add(g.enum("HTagMissingInner", [Variant("V1", Body("Map", [F("z", U64)]), rename=1),
                                    Variant("Old", Body("Inner", [F(None, inner)], tuple_=True), rename=0, missing=True)], tag="v"))
    tnest = add(g.enum("HTagNest", [Variant("In", Body("Inner", [F(None, tg)], tuple_=True)),
                                    Variant("Flat", Body("Map", [F("kind", U64)]))], tag="outer"))
    add(g.enum("HTagNest2", [Variant("A", Body("Inner", [F(None, tnest)], tuple_=True)), Variant("B", Body("UnitMap"))], tag="root"))
    sub1 = add(g.enum("HSub1", [Variant("P", Body("Inner", [F(None, U64)], tuple_=True)), Variant("Q", Body("Unit"))]))
    sub2 = add(g.enum("HSub2", [Variant("R", Body("Map", [F("x", U64)])), Variant("S", Body("Unit")), Variant("Q", Body("Unit"), rename="Q2")]))
    add(g.enum("HEmbed", [Variant("Own", Body("Unit")), Variant("One", Body("Inner", [F(None, sub1)], tuple_=True), embed=True),
                          Variant("Two", Body("Inner", [F(None, sub2)], tuple_=True), embed=True),
                          Variant("Third", Body("Inner", [F(None, U64)], tuple_=True))]))
    add(g.enum("HEmbedTag", [Variant("Own", Body("Inner", [F(None, U64)], tuple_=True)),
                             Variant("Tag", Body("Inner", [F(None, tg)], tuple_=True), embed=True),
                             Variant("St", Body("Inner", [F(None, inner)], tuple_=True), embed=True),
                             Variant("U", Body("Unit"))]))
    add(g.enum("HEmbedOrder", [Variant("L", Body("Inner", [F(None, D[[t.src for t in D].index("HLoose")])], tuple_=True), embed=True),
                               Variant("S", Body("Inner", [F(None, inner)], tuple_=True), embed=True),
                               Variant("N", Body("Inner", [F(None, tr)], tuple_=True), embed=True)]))
    add(g.enum("HUntagged", [Variant("A", Body("Unit")), Variant("B", Body("Inner", [F(None, U64)], tuple_=True)),
                             Variant("C", Body("Map", [F("x", U64)])), Variant("D", Body("Array", [F(None, U64), F(None, U64)], tuple_=True)),
                             Variant("E", Body("UnitMap"), as_struct=True)], untagged=True, dec=False))
    add(g.enum("HSwap", [Variant("Ab", Body("Map", [F("x", U64), F("y", STR)])), Variant("Ba", Body("Map", [F("y", U64), F("x", STR)])),
                         Variant("A", Body("Map", [F("x", U64)])), Variant("B", Body("Array", [F(None, U64), F(None, STR)], tuple_=True)),
                         Variant("C", Body("Array", [F("x", STR), F("y", U64)]), as_array=True)]))
    add(g.enum("HBigVar", [Variant("V%d" % i, Body("Inner", [F(None, PRIMS[i % len(PRIMS)])], tuple_=True)) for i in range(26)]))
    # Enums that only ever hold maps, nested by newtype in tagged ones.
    allmap = add(g.enum("HAllMap", [Variant("A", Body("Map", [F("x", U64)])), Variant("B", Body("Inner", [F(None, U64)], tuple_=True))]))
    add(g.enum("HTagAllMap", [Variant("W", Body("Inner", [F(None, allmap)], tuple_=True)), Variant("X", Body("UnitMap"))], tag="t"))
    # Generics.
    for n, (arg, ty) in enumerate([("u64", U64), ("String", STR), ("Vec<u8>", BYTES), ("Option<u32>", opt(P["u32"])), ("HKey", key)]):
        f = [F("a", ty, ty_src="T"), F("b", vec(ty), optional=True, ty_src="Vec<T>")]
        if arg == "Vec<u8>":
            f = [F("a", ty, ty_src="T"), F("b", Ty("Vec<Vec<u8>>"), optional=True, ty_src="Vec<T>")]
        add(g.struct("HGen", Body("Map", f), generic=("<T: cbor::Encode + cbor::Decode + Default>", "<T>"), inst="HGen<%s>" % arg, emit=n == 0))
    for n, (arg, ty) in enumerate([("u64, bool", (U64, BOOL)), ("String, Vec<i8>", (STR, vec(P["i8"])))]):
        add(g.enum("HGenE", [Variant("L", Body("Inner", [F(None, ty[0], ty_src="A")], tuple_=True)),
                             Variant("R", Body("Map", [F("v", ty[1], ty_src="B")])), Variant("N", Body("Unit"))],
                   generic=("<A: cbor::Encode + cbor::Decode, B: cbor::Encode + cbor::Decode>", ""), inst="HGenE<%s>" % arg, emit=n == 0))
    for n, k in enumerate([0, 4, 20]):
        add(g.struct("HConst", Body("Map", [F("h", bytesn(k), ty_src="[u8; N]"), F("n", U64)]), generic=("<const N: usize>", ""),
                     inst="HConst<%d>" % k, emit=n == 0, no_default=True))
    for n, (arg, ty) in enumerate([("u64", U64), ("String", STR)]):
        add(g.struct("HWhere", Body("Array", [F(None, ty, ty_src="T"), F(None, opt(ty), ty_src="Option<T>")], tuple_=True),
                     generic=("<T>", ""), where=" where T: cbor::Encode + cbor::Decode + Default", inst="HWhere<%s>" % arg, emit=n == 0))
    # In containers.
    for t in list(D):
        if not t.enc or not t.dec:
            continue
    for t in [inner, tg, D[[t.src for t in D].index("HE")]]:
        g.root(vec(t), "derived")
        g.root(tup([P["u8"], t, t]), "derived")
        g.root(bmap(STR, t), "derived")
        if not t.null:
            g.root(opt(t), "derived")
        g.root(arr(t, 2), "derived")
    g.root(hmap(key, key), "derived")
    g.root(hset(key), "derived")
    g.root(bset(key), "derived")


def main(out, seed, scale):
    g = Gen()
    handmade(g)
    r0 = random.Random(20240517)
    for _ in range(int(45 * scale)):
        g.rand_def(r0, "Z")
    r = random.Random(seed * 7919 + 17)
    for _ in range(int(45 * scale)):
        g.rand_def(r, "R")
    for rr in (r0, r):
        for _ in range(int(8 * scale)):
            t = g.rand_ty(rr, 0)
            if any(t.src.count(x.src) for x in g.types):
                g.root(t, "derived")
    builtins(g, r, int(40 * scale))
    with open(out, "w") as f:
        f.write("// @generated by typegen.py\nuse oasis_cbor as cbor;\nuse cbor::Value;\nuse vtyped::dv::*;\n"
                "use vharness::model::{T, U};\nuse std::collections::*;\n\n")
        f.write("\n".join(g.items))
        for i, d in enumerate(g.defs):
            f.write("\nfn def_%d() -> Def { %s }" % (i, d))
        f.write("\npub fn defs() -> Vec<Def> { Vec::from([%s]) }\n" % ", ".join("def_%d()" % i for i in range(len(g.defs))))
        seen = set()
        names = []
        for t, tags in g.roots:
            if t.src in seen:
                continue
            seen.add(t.src)
            n = len(names)
            names.append("root_%d()" % n)
            f.write("fn root_%d() -> Root { Root { name: %s, sh: <%s as Dyn>::sh(), enc: %s, dec: %s, as_map: %s, again: %s, tags: %s } }\n" % (
                n, rstr(t.src), t.src, "enc_of::<%s>()" % t.src if t.enc else "None", "dec_of::<%s>()" % t.src if t.dec else "None",
                "vtyped::probe!(%s)" % t.src if t.enc else "None",
                "again_of::<%s>()" % t.src if t.enc and t.dec else "None",
                rstr(tags + (" lossy" if t.lossy else ""))))
        f.write("pub fn roots() -> Vec<Root> { Vec::from([%s]) }\n" % ", ".join(names))
        f.write("pub const FEATURES: &[(&str, u64)] = &[%s];\n" % ", ".join(
            "(%s, %d)" % (rstr(k), v) for k, v in sorted(g.feat.items())))
    return g


if __name__ == "__main__":
    g = main(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]) if len(sys.argv) > 3 else 1.0)
    print(len(g.defs), "types", len(g.roots), "roots", g.feat)

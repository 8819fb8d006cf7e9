#!/usr/bin/env python3
"""Generate types that derive both the native traits and serde's, without attributes that tell them apart.

serdegen.py OUT SEED SCALE -> Rust source included by /verif/bridge.
"""
import random, sys
import typegen as tg
from typegen import Ty, Body, Variant, Gen, P, PRIMS, UNIT, opt, vec, arr, tup, bmap, hmap, bset, rstr

SD = ["serde::Serialize", "serde::Deserialize"]
ORD = ["Clone", "Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"]
BS = Ty("Bs", key=True, eqd=True)


class Field(tg.Field):
    def attrs(self):
        a = tg.Field.attrs(self)
        if isinstance(self.rename, str):
            a += "#[serde(rename = %s)] " % rstr(self.rename)
        return a


class Var(Variant):
    def attrs(self):
        a = Variant.attrs(self)
        if isinstance(self.rename, str):
            a += "#[serde(rename = %s)] " % rstr(self.rename)
        return a


class SGen(Gen):
    def _rand_ty(self, r, depth, key):
        x = r.random()
        if depth >= 3 or x < 0.42:
            return r.choice(PRIMS)
        if x < 0.50:
            return r.choice([BS, BS, UNIT])
        if x < 0.72 and self.types:
            t = r.choice(self.types)
            if not key or t.key:
                return t
        y = r.random()
        if y < 0.25:
            return opt(self.rand_ty(r, depth + 1, key=key, nonnull=True))
        if y < 0.50:
            return vec(self.not_u8(r, depth, key))
        if y < 0.60:
            return arr(self.not_u8(r, depth, key), r.choice([0, 1, 2, 3, 5, 32]) if depth < 2 else 2)
        if y < 0.72:
            return tup([self.rand_ty(r, depth + 1, key=key) for _ in range(r.choice([1, 2, 2, 3, 4, 8]))])
        if y < 0.84:
            return bmap(self.rand_ty(r, depth + 2, key=True), self.rand_ty(r, depth + 1, key=key))
        if y < 0.93:
            return hmap(self.rand_ty(r, depth + 2, key=True), self.rand_ty(r, depth + 1))
        return bset(self.not_u8(r, depth + 1, True))

    def not_u8(self, r, depth, key):
        t = self.rand_ty(r, depth + 1, key=key)
        return P["u16"] if t.src == "u8" else t

    def fields(self, r, n, tuple_, key):
        taken = set()
        out = []
        for ident in r.sample(tg.WORDS, n):
            ren = None
            if not tuple_ and r.random() < 0.15:
                ren = r.choice(["", "0", "A", "a b", "k" * 24, "\u00e9", ident + "x"])
            k = ident if ren is None else ren
            if k in taken:
                continue
            taken.add(k)
            out.append(Field(None if tuple_ else ident, self.rand_ty(r, 1, key=key), rename=ren))
        return out

    def def_(self, r, prefix):
        self.n += 1
        name = "%s%d" % (prefix, self.n)
        key = r.random() < 0.2
        ders = SD + (ORD if key else [])
        if r.random() < 0.55:
            style = r.choices(["named", "tuple", "newtype", "unit", "transparent"], [60, 15, 12, 5, 8])[0]
            attrs = []
            if style == "named":
                body = Body("Map", self.fields(r, r.choice([0, 1, 2, 3, 4, 6, 12]), False, key))
            elif style == "tuple":
                body = Body("Array", self.fields(r, r.choice([0, 2, 3, 4]), True, key), tuple_=True)
            elif style == "newtype":
                body = Body("Array", self.fields(r, 1, True, key), tuple_=True)
            elif style == "transparent":
                # serde needs a field that is no reference to itself only; any type will do.
                body = Body("Inner", [Field(None, self.rand_ty(r, 1, key=key, need_rd=True, need_default=True, nonnull=True))], tuple_=True)
                attrs = ["transparent"]
            else:
                body = Body("Unit")
            self.use("struct." + style)
            nd = not all(f.ty.default and f.ty.rd for f in body.fields)
            t = self.struct(name, body, attrs, extra_derives=ders, no_default=nd, key=key)
            if attrs:
                # The item was emitted with its attributes in a line of their own.
                for i in range(len(self.items) - 1, -1, -1):
                    if "pub struct %s" % name in self.items[i]:
                        self.items[i] = self.items[i].replace("#[cbor(transparent", "#[serde(transparent)]\n#[cbor(transparent")
                        break
        else:
            vs, taken = [], set()
            for ident in r.sample(tg.VWORDS, r.choice([1, 2, 3, 4, 6])):
                ren = r.choice([None] * 6 + ["", "x y", "\u00e9", "v" * 24])
                k = ident if ren is None else ren
                if k in taken:
                    continue
                taken.add(k)
                x = r.random()
                if x < 0.25:
                    b = Body("Unit")
                elif x < 0.5:
                    b = Body("Inner", [Field(None, self.rand_ty(r, 1, key=key))], tuple_=True)
                elif x < 0.7:
                    b = Body("Array", self.fields(r, r.choice([2, 3]), True, key), tuple_=True)
                else:
                    b = Body("Map", self.fields(r, r.choice([0, 1, 2, 3]), False, key))
                vs.append(Var(ident, b, rename=ren))
                self.use("variant." + b.form)
            t = self.enum(name, vs, extra_derives=ders, key=key)
            t.rd = False
        self.types.append(t)
        self.root(t, "derived")
        return t


def handmade(g):
    F, U64, STR = Field, P["u64"], P["String"]

    def add(t):
        g.types.append(t)
        g.root(t, "derived")
        return t

    add(g.struct("SUnit", Body("Unit"), extra_derives=SD))
    add(g.struct("SEmpty", Body("Map"), extra_derives=SD))
    add(g.struct("SNew", Body("Array", [F(None, U64)], tuple_=True), extra_derives=SD))
    add(g.struct("STup", Body("Array", [F(None, U64), F(None, STR)], tuple_=True), extra_derives=SD))
    k = add(g.struct("SKey", Body("Map", [F("b", P["u8"]), F("a", STR)]), extra_derives=SD + ORD, key=True))
    add(g.struct("SScalars", Body("Map", [F("f%d" % i, t) for i, t in enumerate(PRIMS + [BS, UNIT])]), extra_derives=SD))
    add(g.struct("SOptions", Body("Map", [F("f%d" % i, opt(t)) for i, t in enumerate(PRIMS + [BS])]), extra_derives=SD))
    add(g.struct("SMaps", Body("Map", [F("m", bmap(STR, U64)), F("h", hmap(P["i32"], BS)), F("s", bset(STR)), F("k", bmap(k, vec(k)))]),
                 extra_derives=SD))
    e = add(g.enum("SE", [Var("A", Body("Unit")), Var("B", Body("Inner", [F(None, U64)], tuple_=True)),
                          Var("C", Body("Array", [F(None, U64), F(None, STR)], tuple_=True)),
                          Var("D", Body("Map", [F("x", U64), F("y", opt(STR))])), Var("E", Body("Map")),
                          Var("F", Body("Inner", [F(None, opt(U64))], tuple_=True)),
                          Var("G", Body("Inner", [F(None, UNIT)], tuple_=True)),
                          Var("H", Body("Inner", [F(None, vec(U64))], tuple_=True))], extra_derives=SD))
    add(g.struct("STree", Body("Map", [F("v", U64), F("kids", Ty("Vec<STree>")), F("named", Ty("BTreeMap<String, STree>"))]),
                 extra_derives=SD))
    for t in PRIMS + [BS, UNIT]:
        g.root(t, "builtin")
    for t in PRIMS + [BS]:
        g.root(opt(t), "builtin")
        if t.src != "u8":
            g.root(vec(t), "builtin")
            g.root(arr(t, 3), "builtin")
            g.root(bset(t), "builtin")
        g.root(bmap(t, t), "builtin")
        g.root(hmap(t, UNIT), "builtin")
    for t in (k, e):
        g.root(vec(t), "derived")
        g.root(tup([P["u8"], t, t]), "derived")
        g.root(bmap(STR, t), "derived")
        g.root(opt(t), "derived")


def main(out, seed, scale):
    g = SGen()
    handmade(g)
    r0 = random.Random(977)
    for _ in range(int(25 * scale)):
        g.def_(r0, "Z")
    r = random.Random(seed * 6151 + 3)
    for _ in range(int(25 * scale)):
        g.def_(r, "R")
    for rr in (r0, r):
        for _ in range(int(25 * scale)):
            g.root(g.rand_ty(rr, 0), "builtin")
    with open(out, "w") as f:
        f.write("// @generated by serdegen.py\nuse oasis_cbor as cbor;\nuse vtyped::dv::*;\nuse crate::{Bs, SRoot, sroot};\n"
                "use vharness::model::{T, U};\nuse std::collections::*;\n\n")
        f.write("\n".join(g.items))
        for i, d in enumerate(g.defs):
            f.write("\nfn def_%d() -> Def { %s }" % (i, d))
        f.write("\npub fn defs() -> Vec<Def> { Vec::from([%s]) }\n" % ", ".join("def_%d()" % i for i in range(len(g.defs))))
        seen, names = set(), []
        for t, tags in g.roots:
            if t.src in seen:
                continue
            seen.add(t.src)
            n = len(names)
            names.append("sroot::<%s>(%s)" % (t.src, rstr(t.src)))
        f.write("pub fn roots() -> Vec<SRoot> { Vec::from([%s]) }\n" % ",\n".join(names))
        f.write("pub const FEATURES: &[(&str, u64)] = &[%s];\n" % ", ".join(
            "(%s, %d)" % (rstr(k), v) for k, v in sorted(g.feat.items())))
    return g


if __name__ == "__main__":
    g = main(sys.argv[1], int(sys.argv[2]), float(sys.argv[3]) if len(sys.argv) > 3 else 1.0)
    print(len(g.defs), "types", len(g.roots), "roots", g.feat)

"""Random type definitions with #[derive(SlabItem)], as Rust source with what the harness needs to
describe their types and values on its own."""
import random

# type expressions: ("p", rust) built-in, ("n", def) a defined type without parameters,
# ("g", def, [args]) an instance of a generic one, ("v", name) a type parameter
PRIMS = ["u8", "i8", "u16", "i16", "u32", "u32", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64", "bool",
         "Id<u8>", "Array<u64>", "PhantomData<u16>", "glam::Vec3", "glam::Vec2", "glam::UVec4", "glam::Quat", "glam::Mat4",
         "Option<u8>", "Option<i64>", "Option<Option<u32>>", "[u8; 3]", "[i64; 2]", "[u32; 0]", "(u8, i64)", "(f32,)",
         "(u8, (i16, u64), [bool; 2])", "[Option<u8>; 2]", "Option<[u16; 2]>"]
NAMES = ["a", "b", "c", "x", "index", "slab", "hash", "slab_size", "original_index", "self_", "r#type", "r#match", "size",
         "name", "i", "__0", "__1", "__size", "__hash", "other", "value", "tag", "t", "len", "read_slab", "write_slab", "field_12",
         "long_field_name", "r#fn", "__2", "id", "u", "default"]
VARIANTS = ["A", "B", "C", "None", "Some", "Ok", "Err", "One", "Two", "Default", "Slab", "Vec3", "X", "Y", "Z", "Last", "I", "J"]


class Def:
    pass


def rust(t):
    if t[0] == "p" or t[0] == "v":
        return t[1]
    if t[0] == "n":
        return t[1].name
    if t[0] == "o":
        return "Option<%s>" % rust(t[1])
    if t[0] == "a":
        return "[%s; %d]" % (rust(t[1]), t[2])
    if t[0] == "t":
        return "(%s,)" % ", ".join(rust(x) for x in t[1])
    if t[0] == "i":
        return "Id<%s>" % rust(t[1])
    return "%s<%s>" % (t[1].name, ", ".join(rust(x) for x in t[2]))


def path(t):
    """As part of an expression."""
    if t[0] == "g":
        return "%s::<%s>" % (t[1].name, ", ".join(rust(x) for x in t[2]))
    return rust(t)


def subst(t, m):
    if t[0] == "v":
        return m.get(t[1], t)
    if t[0] == "g":
        return ("g", t[1], [subst(x, m) for x in t[2]])
    if t[0] in ("o", "i"):
        return (t[0], subst(t[1], m))
    if t[0] == "a":
        return ("a", subst(t[1], m), t[2])
    if t[0] == "t":
        return ("t", [subst(x, m) for x in t[1]])
    return t


# words of the built-in types, to keep types small (an estimate is enough)
WEIGHT = {"Mat4": 16, "Vec3": 3, "Vec2": 2, "UVec4": 4, "Quat": 4, "64": 2, "128": 4, "Array": 2, "Option": 1, "(": 3, "[": 3}


def weight(t, m={}):
    if t[0] == "p":
        return 1 + sum(w for k, w in WEIGHT.items() if k in t[1])
    if t[0] == "v":
        return m.get(t[1], 1)
    if t[0] == "o":
        return 1 + weight(t[1], m)
    if t[0] == "i":
        return 1
    if t[0] == "a":
        return 1 + t[2] * weight(t[1], m)
    if t[0] == "t":
        return sum(weight(x, m) for x in t[1])
    d = t[1]
    return 1 + sum(weight(ft, dict(zip(d.params, [weight(x, m) for x in t[2]])) if t[0] == "g" else {})
                   for _, _, fs in d.variants for _, ft in fs)


class Gen:
    def __init__(self, rng, prefix):
        self.rng, self.prefix, self.defs = rng, prefix, []

    def ty(self, params=(), depth=0, limit=24):
        while True:
            t = self.any_ty(params, depth)
            if weight(t) <= limit:
                return t

    def any_ty(self, params, depth):
        r = self.rng
        x = r.random()
        if params and x < 0.35:
            return ("v", r.choice(params))
        if self.defs and x < 0.6 and depth < 3:
            d = r.choice(self.defs[-6:])
            if d.params:
                return ("g", d, [self.ty(params, depth + 1) for _ in d.params])
            return ("n", d)
        if x < 0.68 and depth < 2:
            return ("o", self.ty(params, depth + 1))
        if x < 0.76 and depth < 2:
            return ("a", self.ty(params, depth + 1), r.choice([0, 1, 2, 3]))
        if x < 0.82 and depth < 2:
            return ("t", [self.ty(params, depth + 1) for _ in range(r.randint(1, 3))])
        if x < 0.86 and depth < 2:
            return ("i", self.ty(params, depth + 1))
        return ("p", r.choice(PRIMS))

    def fields(self, params, n):
        names = self.rng.sample(NAMES, n)
        return [(x, self.ty(params)) for x in names]

    def wide(self, k):
        """Definitions with many fields or variants."""
        r = self.rng
        d = Def()
        d.name = "%s%d" % (self.prefix, len(self.defs))
        d.params = []
        d.kind, d.offsets, d.repr, d.default = k, k != "e", False, 0
        if k == "e":
            n = r.choice([130, 280, 300])
            vs = [["V%d" % i, "u", []] for i in range(n)]
            for i in sorted(set([1, 9, 10, 99, 100, 127, 128, n - 1]) | set(r.sample(range(n), 9))):
                if r.random() < 0.6:
                    vs[i][1] = r.choice("st")
                    vs[i][2] = self.many(r.choice([1, 2, 2, 12]))
            d.variants = [tuple(v) for v in vs]
        else:
            d.variants = [(d.name, k, self.many(r.choice([11, 14, 27])))]
            if r.random() < 0.5:
                # field offsets beyond 256
                big = ("a", ("a", ("p", r.choice(["u16", "u32", "f32"])), 17), 16)
                d.variants[0][2].insert(r.randrange(4), ("big", big))
        self.defs.append(d)
        return d

    def many(self, n):
        """Fields of different sizes, whose names aren't in alphabetical order."""
        names = ["f%d" % i for i in range(n)]
        self.rng.shuffle(names)
        return [(x, self.ty((), 1, 8)) for x in names]

    def make(self):
        r = self.rng
        d = Def()
        d.name = "%s%d" % (self.prefix, len(self.defs))
        d.params = ["T", "U"][:r.choice([0, 0, 0, 1, 1, 2])]
        k = r.choice(["s", "s", "t", "e", "e", "e"])
        d.kind = k
        d.offsets = False
        d.variants = []
        used = set()
        if k in "st":
            n = r.choice([1, 2, 2, 3, 4, 6, 9])
            fs = self.fields(d.params, n)
            fs = self.cover(d.params, fs)
            d.variants = [(d.name, k, fs)]
            d.offsets = r.random() < 0.75
        else:
            names = r.sample(VARIANTS, r.choice([1, 2, 3, 3, 4, 6]))
            vs = []
            for v in names:
                vk = r.choice(["u", "t", "t", "s", "s"])
                fs = [] if vk == "u" else self.fields(d.params, r.choice([0, 1, 1, 2, 3, 4]))
                vs.append([v, vk, fs])
            if d.params:
                # every parameter must be used somewhere
                vs.append(["P", r.choice("st"), [(x, ("v", p)) for x, p in zip(r.sample(NAMES, len(d.params)), d.params)]])
                r.shuffle(vs)
            d.variants = [tuple(v) for v in vs]
            d.default = r.randrange(len(vs))
            d.repr = r.random() < 0.2
        self.defs.append(d)
        return d

    def cover(self, params, fs):
        names = {n for n, _ in fs}
        for p in params:
            x = self.rng.choice([n for n in NAMES if n not in names])
            names.add(x)
            fs.insert(self.rng.randint(0, len(fs)), (x, ("v", p)))
        return fs

    # ---------------------------------------------------------------- source
    def bounds(self, d, b):
        return "<%s>" % ", ".join("%s: %s" % (p, b) for p in d.params) if d.params else ""

    def args(self, d):
        return "<%s>" % ", ".join(d.params) if d.params else ""

    def source(self, d):
        r = self.rng
        out = []
        dv = ["Clone", "Copy", "SlabItem"] if r.random() < .5 else ["SlabItem", "Clone", "Copy"]
        if r.random() < .2:
            dv = ["crabslab::SlabItem" if x == "SlabItem" else x for x in dv]
        out.append("#[derive(%s)]" % ", ".join(dv))
        if d.offsets:
            out.append("#[offsets]")
        b = self.bounds(d, r.choice(["SlabItem", "Copy", "Default + Copy"])) if d.params else ""
        where = ""
        if d.params and r.random() < .4:
            b = self.args(d)
            where = " where " + ", ".join("%s: Copy" % p for p in d.params)
        # arrays of a parameter are items for parameters with these bounds only
        if d.params:
            b, where = self.bounds(d, "V + Copy + Default"), ""
            if r.random() < .4:
                b, where = self.args(d), " where " + ", ".join("%s: V + Copy + Default" % p for p in d.params)
        if d.kind == "s":
            out.append("pub struct %s%s%s { %s }" % (d.name, b, where, ", ".join("pub %s: %s" % (n, rust(t)) for n, t in d.variants[0][2])))
        elif d.kind == "t":
            out.append("pub struct %s%s(%s)%s;" % (d.name, b, ", ".join("pub " + rust(t) for _, t in d.variants[0][2]), where))
        else:
            if d.repr:
                out.append("#[repr(u32)]")
            vs = []
            for i, (v, k, fs) in enumerate(d.variants):
                body = "" if k == "u" else "{ %s }" % ", ".join("%s: %s" % (n, rust(t)) for n, t in fs) if k == "s" else "(%s)" % ", ".join(rust(t) for _, t in fs)
                vs.append(v + body + (" = %d" % (i * 3 + 5) if d.repr else ""))
            out.append("pub enum %s%s%s { %s }" % (d.name, b, where, ", ".join(vs)))
        # Default, by hand
        b = self.bounds(d, "V + Copy + Default")
        i = d.default if d.kind == "e" else 0
        out.append("impl%s Default for %s%s { fn default() -> Self { %s } }" % (b, d.name, self.args(d), self.build(d, i, "Default::default()")))
        # V
        tys = lambda fs: ", ".join("<%s as V>::ty()" % rust(t) for _, t in fs)
        if d.kind == "e":
            ty = 'json!({"k":"e","vs":Value::Array(vec![%s])})' % ", ".join("Value::Array(vec![%s])" % tys(fs) for _, _, fs in d.variants)
            gen = "match r.below(%d) { %s }" % (len(d.variants), ", ".join(
                "%s => %s" % (i if i + 1 < len(d.variants) else "_", self.build(d, i, "V::gen(r)")) for i in range(len(d.variants))))
            js = "match self { %s }" % ", ".join(self.pattern(d, i) + ' => json!({"g":%d,"f":[%s]})' % (
                i, ", ".join("f%d.js()" % j for j in range(len(fs)))) for i, (_, _, fs) in enumerate(d.variants))
        else:
            fs = d.variants[0][2]
            ty = 'json!({"k":"t","ts":[%s]})' % tys(fs)
            gen = self.build(d, 0, "V::gen(r)")
            js = "json!([%s])" % ", ".join("self.%s.js()" % (n if d.kind == "s" else j) for j, (n, _) in enumerate(fs))
        out.append("impl%s V for %s%s {\n  fn ty() -> Value { %s }\n  fn gen(r: &mut Rng) -> Self { let _ = &r; %s }\n  fn js(&self) -> Value { %s }\n}" % (
            b, d.name, self.args(d), ty, gen, js))
        return "\n".join(out)

    def build(self, d, i, x):
        v, k, fs = d.variants[i]
        p = "Self::" + v if d.kind == "e" else "Self"
        if k == "u":
            return p
        if k == "s":
            return "%s { %s }" % (p, ", ".join("%s: %s" % (n, x) for n, _ in fs))
        return "%s(%s)" % (p, ", ".join(x for _ in fs))

    def pattern(self, d, i):
        v, k, fs = d.variants[i]
        if k == "u":
            return "Self::" + v
        if k == "s":
            return "Self::%s { %s }" % (v, ", ".join("%s: f%d" % (n, j) for j, (n, _) in enumerate(fs)))
        return "Self::%s(%s)" % (v, ", ".join("f%d" % j for j in range(len(fs))))

    # ------------------------------------------------------------- exercise
    def instance(self, d):
        if d.params:
            return ("g", d, [self.ty((), 1, 8) for _ in d.params])
        return ("n", d)

    def chains(self, t, limit):
        """Paths of field offsets down from type t: [[(owner type, field number, field name, field type)]]."""
        out = []
        todo = [(t, [])]
        while todo:
            u, p = todo.pop()
            if u[0] not in "ng" or not u[1].offsets or len(p) > 4:
                continue
            d = u[1]
            m = dict(zip(d.params, u[2])) if u[0] == "g" else {}
            for j, (n, ft) in enumerate(d.variants[0][2]):
                q = p + [(u, j, n if d.kind == "s" else str(j), subst(ft, m))]
                out.append(q)
                todo.append((q[-1][3], q))
        self.rng.shuffle(out)
        out.sort(key=lambda q: len(q) == 1)
        return out[:limit]

    def uses(self, d, chains):
        t = self.instance(d)
        out = ["many::<%s>(n, r, out);" % rust(t)]
        if d.kind == "e":
            out.append("tags::<%s>(%d, n, r, out);" % (rust(t), len(d.variants)))
        for q in self.chains(t, chains):
            const = lambda s, pre: "%s::%s_OF_%s" % (path(s[0]), pre, s[2].replace("r#", "").upper())
            offs = ["%s" % const(s, "OFFSET") for s in q]
            sums = " + ".join("%s.offset" % o for o in offs)
            down = "id" + "".join(" + " + o for o in offs)
            up = "id"
            for o in offs:
                up = "(%s + %s)" % (o, up)
            size = const(q[-1], "SLAB_SIZE")
            access = "".join("." + s[2] for s in q)
            out.append("field::<%s, %s>(json!(%s), (%s) as u32, |id| %s, |id| %s, %s, |x| &mut x%s, n, r, out);" % (
                rust(t), rust(q[-1][3]), [s[1] for s in q], sums, down, up, size, access))
        return out


HEAD = """#![allow(warnings)]
#[path = "%s/harness/seq/src/vt.rs"]
mod vt;
#[path = "%s/harness/seq/src/derived.rs"]
mod derived;
"""
IMPORTS = """
use std::marker::PhantomData;
use crabslab::{Array, Id, SlabItem};
use serde_json::{json, Value};
use crate::derived::*;
use crate::vt::{Rng, V};
"""


def source(seed, modules, per, verif, chains=6):
    rng = random.Random("derive-%d" % seed)
    out = [HEAD % (verif, verif)]
    calls = []
    for m in range(modules + 1):
        g = Gen(rng, "G%dT" % m)
        body, uses = [], []
        for i in range(per if m < modules else 6):
            d = g.make() if m < modules else g.wide("stsete"[i])
            body.append(g.source(d))
            uses += g.uses(d, chains if m < modules else 10)
        out.append("mod m%d {%s%s\npub fn run(n: usize, r: &mut Rng, out: &mut Out) {\n  %s\n}\n}" % (
            m, IMPORTS, "\n".join(body), "\n  ".join(uses)))
        calls.append("m%d::run" % m)
    out.append(open(verif + "/harness/seq/src/corpus.rs").read())
    calls.append("corpus::run")
    out.append("fn main() { derived::main(&[%s]) }" % ", ".join(calls))
    return "\n".join(out)

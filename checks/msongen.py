"""Random documents of spec/Blue.tla with data structures (spec/Mson.tla)."""
from bluegen import Docs, WORDS

PRIMS = ["string", "number", "boolean"]
GOOD = {"string": ["a", "bc", "some words", "x1"], "number": ["1", "42", "7", "2.5", "0", "1e5", "0.5E+2"], "boolean": ["true", "false"]}
ODD = ["abc", "1x", "yes", "01", "1e", "0e1", "TRUE"]
KEYS = ["id", "name", "tags", "owner", "count", "flag", "x", "y"]
ATTRS = ["required", "optional", "fixed", "fixed-type", "nullable", "default", "sample"]


class Typed(Docs):
    def __init__(self, r, w=None):
        super().__init__(r, w)
        for k, v in dict(mson=1, depth=3, odd=.06, attr=.25, told=.2, sym=.3, sec=.25, mixin=.1, oneof=.08, var=.1, wrong=.03, defs=3, json=.6).items():
            self.w.setdefault(k, v)
        if r.random() < self.w.get("clean", .6):        # most errors hide all the rest
            self.w.update(odd=0, wrong=0, junk=0)
        self.types = {}
        self.now = None

    # ---- types
    def td(self, ty="", nest=(), at=()):
        return dict(ty=ty, nest=list(nest), at=list(at) + (["odd one"] if ty and self.coin("odd") and self.coin(.5) else []))

    def kind(self, ty):
        seen = set()
        while ty in self.types and ty not in seen:
            seen.add(ty)
            ty = self.types[ty]["ty"] or "object"
        return ty

    def names(self, kinds):
        return [n for n in self.types if self.kind(n) in kinds]

    def ats(self, some=ATTRS):
        if not self.coin("attr"):
            return []
        n = 2 if self.coin(.2) else 1
        out = self.r.sample(some, n)
        return out

    def nest(self, kind):
        """the types an array or enum is made of"""
        if kind not in ("array", "enum") or self.coin(.4):
            return []
        pool = PRIMS + (["object", "array"] if self.coin(.2) else []) + self.names(["string", "number", "boolean", "object", "array", "enum"] if kind == "array" else PRIMS)
        out = [self.pick(pool) for _ in range(2 if self.coin(.2) else 1)]
        if self.coin("odd"):
            out.append("Z")
        return out

    def type(self, kinds=("string", "number", "boolean", "array", "enum", "object", ""), at=ATTRS):
        k = self.pick(kinds)
        if k and self.coin("sym") and self.names([k]):
            return self.td(self.pick(self.names([k])), [], self.ats(at)), k
        if k and self.coin("odd") and self.coin(.2):
            return self.td("Z", [], self.ats(at)), ""
        return self.td(k, self.nest(k), self.ats(at)), k

    def value(self, k):
        x = self.pick(ODD) if self.coin("odd") else self.pick(GOOD.get(k, GOOD["string"]))
        return dict(x=x, v=self.coin("var"))

    def values(self, k, td):
        if k in PRIMS or k == "":
            n = 0 if self.coin(.35) else 1 if self.coin(.95) else 2
        elif k in ("array", "enum"):
            n = self.r.choice([0, 0, 0, 1, 1, 2, 3])
        else:
            n = 1 if self.coin("wrong") else 0
        of = td["nest"][0] if td["nest"] and td["nest"][0] in PRIMS else k
        vs = [self.value(of) for _ in range(n)]
        if k in PRIMS and n > 1:
            vs = [dict(v, v=False) for v in vs]
        return vs

    # ---- members
    def member(self, prop, depth, k=None, at=ATTRS):
        ks = ["string", "number", "boolean", "array", "enum", "object", ""] if depth else ["string", "number", "boolean", ""]
        td, k = self.type(ks if k is None else [k], at)
        nm = self.pick(KEYS) if prop else ""
        nv = prop and self.coin("var") and self.coin(.5)
        kt = self.td(self.pick(["string"] + self.names(["string"]) + (["number"] if self.coin("wrong") else []))) if nv and self.coin(.4) else self.td()
        s = dict(k="mem", nm=nm, nv=nv, kt=kt, vs=self.values(k, td), td=td, d=self.pick(["what it is", "told here"]) if self.coin("told") else "")
        if not prop and not s["vs"] and td["ty"] == "" and not td["at"]:
            s["vs"] = [self.value(k)]
        if not prop and not s["vs"]:
            s["d"] = ""
        return self.item_(s, self.inside(k, depth - 1, len(s["vs"])))

    def item_(self, s, b):
        return dict(k="i", s=s, ls=[], b=b, g=bool(b) and all(x["k"] == "i" for x in b) and self.tight)

    def told(self):
        return [self.p()] if self.coin("told") and self.coin(.4) else []

    def mixin(self, kinds):
        ns = [x for x in self.names(kinds) if self.now is None or x < self.now or self.coin(.05)]     # mostly no circles
        if self.coin("wrong"):
            ns = list(self.types) + ["Z"]
        return [self.item_(dict(k="mix", x=self.pick(ns), td=self.td()), [])] if ns else []

    def props(self, depth, n=3):
        out = []
        for _ in range(self.r.randint(1, n)):
            if self.coin("mixin"):
                out += self.mixin(["object"])
            elif self.coin("oneof"):
                out.append(self.oneof(depth))
            else:
                out.append(self.member(True, depth))
        return out

    def oneof(self, depth):
        b = []
        for _ in range(self.r.randint(0 if self.coin(.05) else 1, 3)):
            c = self.r.random()
            if c < .2:
                b.append(self.item_(dict(k="sec", c="Properties", vs=[]), [self.member(True, max(depth - 1, 0)) for _ in range(self.r.randint(1, 2))]))
            elif c < .3:
                b += self.mixin(["object"])
            elif c < .35 and depth > 0:
                b.append(self.oneof(depth - 1))
            else:
                b.append(self.member(True, max(depth - 1, 0)))
        if self.coin("wrong"):
            b.append(self.p())
        return self.item_(dict(k="one"), b)

    def vals(self, k, depth, n=3):
        out = []
        for _ in range(self.r.randint(1, n)):
            if k == "array" and self.coin("mixin"):
                out += self.mixin(["array"])
            else:
                out.append(self.member(False, depth if k == "array" else 0, k=None if k == "array" else self.pick(["", "", "string", "number"]), at=["fixed", "sample", "default"] if k == "enum" else ATTRS))
        return out

    def section(self, k, depth, head=False):
        """a section of what is of kind k"""
        kinds = {"array": ["Items", "Members", "Default", "Sample"], "enum": ["Items", "Members", "Default", "Sample"], "object": ["Properties", "Default", "Sample"]}
        c = self.pick(kinds.get(k, ["Default", "Sample"])) if not self.coin("wrong") else self.pick(["Items", "Members", "Properties", "Default", "Sample"])
        vs = []
        b = []
        if c in ("Items", "Members"):
            b = self.vals(k if k in ("array", "enum") else "array", depth)
        elif c == "Properties":
            b = self.props(depth)
        elif k in ("array", "enum"):
            if self.coin(.5):
                vs = [self.value("string") for _ in range(self.r.randint(1, 2))]
            if not vs or self.coin(.1):
                b = self.vals(k, 0)
        elif k == "object":
            b = [self.member(True, 0) for _ in range(self.r.randint(1, 2))]
            vs = [self.value("string")] if self.coin("wrong") else []
        else:
            vs = [dict(self.value(k), v=False)] if self.coin(.9) else []
            if not vs:
                b = [self.p()] if not head and self.coin(.5) else []
        return dict(c=c, vs=vs), b

    def sections(self, k, depth):
        out = []
        for _ in range(1 if self.coin(.8) else 2):
            s, b = self.section(k, depth)
            out.append(self.item_(dict(k="sec", **s), b))
        return out

    def inside(self, k, depth, nvals=0):
        out = self.told()
        if depth < 0 or self.coin(.3):
            return out
        if out and not self.coin(.3):
            return out + (self.sections(k, depth) if k else [])
        if k in PRIMS:
            return out + (self.sections(k, depth) if self.coin("sec") else self.vals("array", 0, 1) if self.coin("wrong") else [])
        if k == "object" or k == "":
            if k == "" and (nvals or self.coin(.6)):
                return out
            out += self.props(depth)
            return out + (self.sections("object", depth) if self.coin("sec") else [])
        out += self.vals(k, depth) if not self.coin("sec") else []
        return out + (self.sections(k, depth) if self.coin("sec") else [])

    # ---- in documents
    def attributes(self, w=.5):
        if not self.coin(w * self.w["mson"]):
            return []
        self.tight = self.coin(.5)
        td, k = self.type(["object", "object", "", "", "array", "enum", "string", "number"], ["nullable", "fixed", "required", "optional"])
        b = self.inside(k or "object", int(self.w["depth"]))
        self.strip(b)
        return [self.item_(dict(k="attributes", td=td), b)]

    def strip(self, bs):
        """paragraphs need empty lines around them"""
        def has(b):
            return b["k"] == "p" or any(has(x) for x in b.get("b", []))
        loose = any(has(b) for b in bs)

        def walk(b, g):
            if b["k"] == "i":
                b["g"] = g and bool(b["b"])
                for x in b["b"]:
                    walk(x, g)
        for b in bs:
            walk(b, not loose and self.tight)

    def structures(self):
        self.types = {}
        n = self.r.randint(0, int(self.w["defs"])) if self.coin(.9) else 0
        names = list("ABCDEF")[:n]
        if not n:
            return []
        for x in names:
            known = [y for y in self.types]
            k = self.pick(["object", "object", "object", "array", "enum", "string", "number", "boolean", ""])
            if known and self.coin("sym"):
                self.types[x] = self.td(self.pick(known), [], self.ats(["nullable", "fixed", "required"]))
            else:
                self.types[x] = self.td(k, [], self.ats(["nullable", "fixed", "required"]))
        for x in names:
            if self.types[x]["ty"] in ("array", "enum"):
                self.types[x]["nest"] = [y for y in self.nest(self.types[x]["ty"]) if self.coin("wrong") or y not in names or names.index(y) < names.index(x) or self.coin(.3)]
        if self.coin("wrong"):
            self.types[self.pick(names)]["ty"] = self.pick(names + ["Z"])
        out = [self.h(dict(k="ds"), 1)]
        if self.coin("wrong"):
            out.append(self.p())
        order = list(names)
        if self.coin(.4):
            self.r.shuffle(order)
        if self.coin("wrong") and self.coin(.3):
            order.append(self.pick(names))
        for x in order:
            self.tight = self.coin(.5)
            self.now = x
            b = [y for y in self.inside(self.kind(x) if self.kind(x) in PRIMS + ["array", "enum", "object"] else "object", int(self.w["depth"])) if not (y["k"] == "i" and y["s"]["k"] == "sec")]
            self.strip(b)
            out.append(self.h(dict(k="type", x=x, td=self.types[x]), 2))
            out += b
            if self.coin("sec") and not (b and any(y["k"] == "p" for y in b)):
                s, b = self.section(self.kind(x), int(self.w["depth"]), True)
                self.strip(b)
                out.append(self.h(dict(k="tsec", **s), 3))
                out += b
        self.now = None
        return out

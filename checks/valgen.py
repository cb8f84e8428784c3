"""Random operations of spec/Values.tla."""
import gen
from toolgen import octets

POINTS = [0, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 35, 39, 45, 47, 58, 65, 91, 92, 93, 97, 110, 122, 123, 126, 127, 128, 133, 159, 160, 233, 255, 256, 0x7ff, 0x800,
          0x2027, 0x2028, 0x2029, 0x202a, 0x20ac, 0xd7ff, 0xe000, 0xfefe, 0xfeff, 0xff00, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]
WORDS = ["", "null", "true", "False", "yes", "NO", "on", "off", "y", "N", "a", "ab", "a-b", "-", "- a", "a: b", "#c", "1", "1.5", "[]", "{}", "~", "nulls", "a_b", "two\nlines",
         "\\u0041", "\"", "\\", "a\"b", "http://x/", "tab\t", "é", "\u2028", "\U0001f600"]
NUMBERS = ["0", "-1", "1.5", "42", "1e+9", "9007199254740993"]


def utf8(p):
    return list(chr(p).encode("utf-8", "surrogatepass"))


class Structures(gen.Gen):
    """Elements as the generators take them: references resolved, members complete, chains that merge."""
    p_name = 0.03
    p_meta = 0.03
    p_attr = 0.55
    p_unset = 0.4
    p_near = 0.02
    wild = 0.0
    unset_key = 0.03
    unset_member = 0.0
    width = 4
    keys = ["a", "b", "c", "a", "b", "d.e", "", "f[]"]
    strings = ["", "a", "x", "y", "0", "true", "long text"]
    numbers = ["0", "1", "42", "-7", "1.5"]
    attr_keys = ["typeAttributes"] * 5 + ["samples", "default"]
    type_attrs = ["fixed", "fixedType", "nullable", "required", "optional", "fixed", "nullable"]
    kinds = ["object"] * 3 + ["array"] * 3 + ["string"] * 3 + ["number"] * 2 + ["boolean", "enum", "enum", "null", "ref", "extend", "holder"]
    string_keys = 0.97

    def kids(self, t, d):
        r = self.r
        n = r.randint(0, self.width) if d > 0 else r.randint(0, 1)
        if t == "select":
            return [self.el(d - 1, "option") for _ in range(r.randint(0, 3))]
        if t == "object" or t == "option":
            return [self.el(d - 1, r.choice(["ref", "select", "extend", "object", "holder", "ref", "string", "array"]) if self.coin(.22) else "member") for _ in range(n)]
        if t == "extend":
            k = r.choice(["object", "object", "object", "string", "array", "number", "enum"])
            return [self.el(d - 1, k) for _ in range(r.randint(1, 3))]
        if t == "array":
            return [self.el(d - 1, self.kind(d - 1) if self.coin(.95) else r.choice(["member", "select"])) for _ in range(n)]
        if t == "enum":
            return [self.el(d - 1, r.choice(["string", "number", "boolean", "array", "object", "null"]))]
        if t == "member":
            v = self.el(d - 1, self.kind(d - 1, t))
            return [self.key(d), v]
        return gen.Gen.kids(self, t, d)

    def kind(self, d, parent=None):
        return self.r.choice(self.kinds if d > 0 else ["string", "number", "boolean", "string", "null"])

    def key(self, d):
        r = self.r
        if self.coin(.04):
            return self.named("extend", c=[self.string(r.choice(self.keys)), self.string(r.choice(self.keys))])
        k = self.string(r.choice(self.keys))
        if self.coin(self.unset_key):
            k["s"], k["v"] = False, ""
        if self.coin(.06):
            k["a"] = [dict(k="typeAttributes", el=self.arr([self.string("fixed")]))]
        return k

    def named(self, t, v="", c=()):
        return dict(t=t, n=gen.defname(t), m=[], a=[], s=True, v=v, c=list(c))

    def fix(self, e):
        """what the parser guarantees"""
        r = self.r

        def put(k, el):
            e["a"] = [p for p in e["a"] if p["k"] != k] + [dict(k=k, el=el)]
        if e["t"] == "ref":
            e["s"], e["v"] = True, e["v"] or "T"
            x = self.el(1, r.choice(["object", "object", "object", "array", "array", "string", "enum"]))
            put("resolved", x)
        elif e["t"] == "extend":
            e["s"] = True
            e["c"] = e["c"] or [self.named("object")]
        elif e["t"] == "enum":
            xs = [self.el(r.randint(0, 1), r.choice(["string", "string", "number", "boolean", "null", "array", "object", "enum"])) for _ in range(r.randint(0, 4))]
            put("enumerations", self.arr(xs))
        elif e["t"] == "member":
            if e["c"][0]["t"] == "extend" and not gen.attr(e, "variable")["s"]:
                put("variable", self.named("boolean", "true"))
            elif self.coin(.08):
                put("variable", self.named("boolean", r.choice(["true", "true", "false"])))
        return e


class Trees(gen.Gen):
    """Elements for the serialiser: anything, with source maps about."""
    p_attr = .5
    p_meta = .5
    nil_kids = .06
    attr_keys = ["sourceMap", "sourceMap", "typeAttributes", "code", "default", "samples"]
    meta_keys = ["id", "classes", "sourceMap", "title", "links"]
    names = ["annotation", "annotation", "category", "A", "sourceMap", ""]
    p_name = .25


class Ops:
    def __init__(self, r, weights):
        self.r = r
        self.ops = list(weights)
        self.weights = [weights[o] for o in self.ops]
        self.structures = Structures(r)
        self.trees = Trees(r)

    def coin(self, p):
        return self.r.random() < p

    # ---- values
    def octet_text(self):
        r = self.r
        if self.coin(.5):
            return list(r.choice(WORDS).encode())
        return [b for _ in range(r.choice([0, 1, 1, 2, 3, 6])) for b in utf8(r.choice(POINTS))]

    def plain_text(self):
        return self.r.choice(["", "a", "b", "c", "x y", "é", "0"])

    def val(self, d, text):
        r = self.r
        k = r.choice(["null", "true", "false", "string", "string", "number"] + (["array", "object"] * 4 if d else []))
        v, ks, c = "", [], []
        if k == "string":
            v = text()
        elif k == "number":
            v = r.choice(NUMBERS)
            if text == self.octet_text:
                v = octets(v)
        elif k in ("array", "object"):
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            c = [self.val(d - 1, text) for _ in range(n)]
            if k == "object":
                for _ in range(n):
                    x = text()
                    if x in ks and self.coin(.97):
                        x = x + (octets("k%d" % len(ks)) if isinstance(x, list) else "k%d" % len(ks))
                    ks.append(x)
        return dict(k=k, v=v, ks=ks, c=c)

    def size(self, v):
        return 1 + sum(self.size(x) for x in v["c"])

    def paths(self, v, p=()):
        yield list(p), v
        for i, x in enumerate(v["c"]):
            yield from self.paths(x, p + (i + 1,))

    def spot(self, st, kinds=None, slots=(1, 2, 3)):
        """a slot and a path in it"""
        xs = [(d, p, v) for d in slots for p, v in self.paths(st[d - 1]) if not kinds or v["k"] in kinds]
        return self.r.choice(xs) if xs else None

    def draw(self, st):
        while True:
            o = getattr(self, "op_" + self.r.choices(self.ops, self.weights)[0])(st["vals"])
            if o:
                return o

    def unique(self, v):
        return len(set(v["ks"])) == len(v["ks"]) and all(self.unique(x) for x in v["c"])

    def lit(self, d):
        while True:
            v = self.val(d, self.plain_text)
            if self.unique(v):
                return v

    def near(self, v):
        """much like v"""
        r = self.r
        v = dict(v)
        if v["c"] and self.coin(.6):
            c = list(v["c"])
            x = r.random()
            i = r.randrange(len(c))
            if x < .3:
                c[i] = self.near(c[i])
            elif x < .5 and len(c) > 1:
                j = r.randrange(len(c))
                c[i], c[j] = c[j], c[i]
                if v["ks"] and self.coin(.7):
                    ks = list(v["ks"])
                    ks[i], ks[j] = ks[j], ks[i]
                    v["ks"] = ks
            elif x < .7 and not v["ks"]:
                c.append(c[i])
            elif x < .85:
                del c[i]
                if v["ks"]:
                    v["ks"] = v["ks"][:i] + v["ks"][i + 1:]
            else:
                c[i] = self.lit(1)
            v["c"] = c
        elif self.coin(.3):
            return self.lit(1)
        elif v["k"] in ("string", "number"):
            v["k"] = "number" if v["k"] == "string" and v["v"] == "0" else v["k"]
        return v

    def op_vlit(self, st):
        r = self.r
        d = r.randint(1, 3)
        if self.coin(.5):
            s = r.choice([x for x in (1, 2, 3) if x != d])
            return dict(op="vlit", d=d, el=self.near(st[s - 1]))
        return dict(op="vlit", d=d, el=self.lit(3))

    def op_vcopy(self, st):
        d, p, _ = self.spot(st)
        return dict(op="vcopy", d=self.r.choice([x for x in (1, 2, 3) if x != d]), s=d, q=p)

    def op_vassign(self, st):
        d, p, _ = self.spot(st)
        s, q, v = self.spot(st)
        if d == s or self.size(st[d - 1]) + self.size(v) > 40:
            return None
        return dict(op="vassign", d=d, p=p, s=s, q=q, b=self.coin(.5))

    def op_vmove(self, st):
        d, s = self.r.sample([1, 2, 3], 2)
        return dict(op="vmove", d=d, s=s)

    def op_vput(self, st):
        x = self.spot(st, ("object",))
        if not x or self.size(st[x[0] - 1]) > 30:
            return None
        k = self.r.choice(x[2]["ks"]) if x[2]["ks"] and self.coin(.4) else self.plain_text()
        return dict(op="vput", d=x[0], p=x[1], k=k, el=self.lit(1), how=self.r.choice(["move", "copy", "pair"]))

    def op_vitem(self, st):
        x = self.spot(st, ("array",))
        if not x or self.size(st[x[0] - 1]) > 30:
            return None
        el = self.r.choice(x[2]["c"]) if x[2]["c"] and self.coin(.5) else self.lit(1)
        return dict(op="vitem", d=x[0], p=x[1], el=self.near(el) if self.coin(.5) else el)

    def op_vfind(self, st):
        x = self.spot(st, ("object",))
        if not x:
            return None
        k = self.r.choice(x[2]["ks"]) if x[2]["ks"] and self.coin(.6) else self.plain_text()
        return dict(op="vfind", d=x[0], p=x[1], k=k, set=self.coin(.4), el=self.lit(0))

    def op_veq(self, st):
        d, p, _ = self.spot(st)
        s, q, _ = self.spot(st)
        if self.coin(.5):
            p, q = [], []
        return dict(op="veq", d=d, p=p, s=s, q=q)

    def op_json(self, st):
        return dict(op="json", el=self.val(self.r.randint(0, 4), self.octet_text), packed=self.coin(.5))

    def op_yaml(self, st):
        return dict(op="yaml", el=self.val(self.r.randint(0, 4), self.octet_text))

    def structure(self):
        while True:
            e = self.structures.el(3, self.r.choice(["object"] * 6 + ["array"] * 2 + ["enum", "string", "ref", "extend", "holder"]))
            if gen.size(e) <= 60:
                return e

    def op_body(self, st):
        return dict(op="body", el=self.structure())

    def op_schema(self, st):
        return dict(op="schema", el=self.structure())

    def op_tree(self, st):
        while True:
            e = self.trees.el(3)
            if gen.size(e) <= 60 and serialisable(e):
                return dict(op="tree", el=e, b=self.coin(.5))


def serialisable(e):
    """nothing is missing but values of members"""
    if gen.nil(e):
        return False
    if e["s"] and e["t"] == "member":
        kids = e["c"][:1] + [x for x in e["c"][1:] if not gen.nil(x)]
    else:
        kids = e["c"] if e["s"] else []
    return all(serialisable(x) for x in kids) and all(serialisable(p["el"]) for w in "ma" for p in e[w])

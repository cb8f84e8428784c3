"""Random documents of spec/Blue.tla, and their text."""
import random

WORDS = ["alpha", "beta", "gamma", "delta", "some text", "Lorem ipsum dolor", "a note", "more to say", "the end."]
NAMES = ["Users", "User", "Notes", "My Thing", "Post", "x1", "Api", "List all", "Gist"]
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "CONNECT", "OPTIONS", "MKCOL", "LINK", "UNLINK"]
CODES = ["200", "201", "204", "304", "404", "100", "500", "101", "302"]
TYPES = ["application/json", "text/plain", "application/hal+json", "application/xml", "application/json; charset=utf-8", "text", "image/*", "application/vnd.a+b+json", "APPLICATION/JSON; a=b c=\"x y\"; d=e", "text/html;charset=\"a\"", "a+/b", "x/y+", "x/y; k=a+b;l=\"\"", "x/y; q=\"a;b\" ; r=*"]
VARS = ["id", "limit", "page", "q", "user_id", "a.b"]
JSONS = ["application/json", "application/json", "application/hal+json", "application/json; charset=utf-8", "application/vnd.a+b+json", "Application/JSON"]
HEADERS = ["X-One: 1", "X-One: 2", "Content-Type: text/plain", "Content-Type: application/json", "Accept: */*", "Set-Cookie: a=b", "Set-Cookie: c=d", "x-one: 3", "X-None:", "X-Loose 5",
           "Content-Length: 12", "Transfer-Encoding: chunked", "Bad(Name: 1", ": 2", "Link: <a>", "  X-Pad:   spaced  "]
CODE = [["{"] + ["  \"a\": 1"] + ["}"], ["{}"], ["Hello World"], ["line one", "", "line three"], ["{ \"x\": [1, 2] }"], ["<xml>", "  <a/>", "</xml>"], ["+ Body"], ["- Headers"], ["true"]]
METAS = ["FORMAT: 1A", "HOST: http://a.example/", "HOST: x", "KEY:", "a: b: c", "no pair"]
RELS = ["self", "next-page", "a.b", "Self", "1x", "un known", "create"]
TRAITS = ["required", "optional", "string", "number", "enum[string]", "Required", "`5`", "`x y`", "boolean", "a-type"]
VALUES = ["1", "2", "x", "x y", "abc"]


class Docs:
    def __init__(self, r, w=None):
        self.r = r
        self.w = dict(junk=.05, desc=.3, meta=.25, group=.3, model=.3, refs=.3, params=.35, headers=.3, assets=.5, rest=.12, fenced=.3, old=.3, late=.2, typo=.03, bad=.1, tight=.5, big=1.0, maps=.5)
        self.w.update(w or {})

    def coin(self, k):
        return self.r.random() < (self.w[k] if isinstance(k, str) else k)

    def pick(self, l):
        return self.r.choice(l)

    # ---- blocks
    def h(self, s, lv=None):
        return dict(k="h", lv=lv or self.r.randint(1, 4), s=s)

    def p(self, *ls):
        return dict(k="p", ls=list(ls) or [self.pick(WORDS) for _ in range(1 if self.coin(.7) else 2)])

    def c(self, ls=None):
        return dict(k="c", ls=ls or self.pick(CODE), f=self.coin("fenced"))

    def i(self, s, ls=(), b=(), g=None):
        b = list(b)
        g = self.coin("tight") if g is None else g
        return dict(k="i", s=s, ls=list(ls), b=b, g=bool(g and b and all(x["k"] == "i" for x in b)))

    def text(self):
        return self.i(dict(k="text", x=self.pick(["some text", "two words", "an item here"])), b=[self.p()] if self.coin(.15) else [])

    def loose(self):
        """what is no section"""
        return self.pick([self.p, self.p, self.p, self.text, self.c])()

    def descs(self, n=2):
        return [self.loose() for _ in range(self.r.randint(1, n))] if self.coin("desc") else []

    def rest(self):
        return [self.pick(WORDS) for _ in range(self.r.randint(1, 2))] if self.coin("rest") else []

    # ---- headers, assets
    def hlines(self):
        return [self.pick(HEADERS) if self.coin(.8) else self.pick(HEADERS[:6]) for _ in range(self.r.randint(1, 3))]

    def headers(self):
        ls = self.hlines() if self.coin(.08) else []
        b = [] if ls and self.coin(.7) or self.coin(.04) else [self.c(self.hlines())]
        if self.coin(.1):
            b.append(self.p(*[l.strip() for l in self.hlines()]))
        return self.i(dict(k="headers"), ls, self.legal(b + self.junk()))

    def content(self, refs=.06):
        if self.coin(refs):
            return self.p(self.reftext())
        return self.p(*(self.pick(CODE) if self.coin(0) else [self.pick(WORDS)])) if self.coin(.12) else self.c()

    def asset(self, k):
        ls = [self.pick(WORDS + ["{}"])] if self.coin(.08) else []
        b = [] if ls or self.coin(.04) else [self.content()]
        if b and self.coin(.12):
            b.append(self.content())
        return self.i(dict(k=k), ls, self.legal(b + self.junk()))

    def reftext(self):
        return "[%s][]" % self.pick(NAMES[:4]) if self.coin(.9) else self.pick(["[Users] []", "[][]", "[Users]", "[My Thing][] ", "[Nobody][]"]).strip()

    def junk(self):
        return [self.loose() if self.coin(.6) else self.item()] if self.coin("junk") else []

    # ---- parameters
    def attrs(self, old, x):
        ts = [t for t in TRAITS if "[" not in t] if old else TRAITS if x and self.coin(.1) else [t for t in TRAITS if t[0] != "`"]
        return [self.pick(ts) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3]) if self.coin(.95) else 4)]

    def val(self):
        return self.i(dict(k="val", x=self.pick(VALUES)))

    def param(self):
        old = self.coin("old")
        s = dict(k="param", n=self.pick(VARS), x=self.pick(VALUES) if self.coin(.4) else "", d=self.pick(["what it is", "desc"]) if self.coin(.4) else "", old=old)
        s["at"] = self.attrs(old, s["x"])
        b = self.descs(1) if self.coin(.4) else []
        if any(x["k"] == "i" for x in b):
            b = []
        if old:
            if self.coin(.3):
                b += [self.i(dict(k="values"), b=[self.val() for _ in range(self.r.randint(0 if self.coin(.1) else 1, 3))])]
        else:
            for k in ["members", "default", "sample"]:
                if self.coin(.25):
                    b.append(self.i(dict(k="members"), b=[self.val() for _ in range(self.r.randint(1, 3))]) if k == "members" else self.i(dict(k=k, x=self.pick(VALUES))))
            self.r.shuffle(b) if self.coin(.2) else None
        return self.i(s, self.rest(), self.legal(b))

    def params(self):
        b = [self.param() for _ in range(self.r.randint(1, 3))]
        if self.coin("junk"):
            b.insert(self.r.randint(0, len(b)), self.pick([self.text, self.p])())
        if self.coin(.03):
            b = []
        ls = self.rest() if self.coin(.3) else []
        return self.i(dict(k="params"), ls, b)

    # ---- payloads
    def payload(self, k, model=""):
        s = dict(k=k)
        if k == "response":
            s["n"] = self.pick(CODES) if self.coin(.95) else ""
        elif k == "request":
            s["n"] = self.pick(NAMES[:4]) if self.coin(.3) else ""
        else:
            s["n"] = model
        s["t"] = "" if not self.coin(self.w.get("media", .5)) else self.pick(JSONS if self.coin(self.w.get("json", 0)) else TYPES)
        if k != "model":
            s["j"] = "and junk" if s["t"] and self.coin(.02) else ""
        if self.coin("assets"):
            b = self.descs()
            parts = [x for x in ["headers", "body", "schema", "params"] if self.coin({"headers": .5, "body": .7, "schema": .25, "params": .15 if k == "request" else .03}[x])]
            if self.coin(.1):
                parts.append(self.pick(["headers", "body", "schema"]))
            if self.coin(.1):
                self.r.shuffle(parts)
            b += self.attributes() if k != "model" else []
            for x in parts:
                b.append(self.headers() if x == "headers" else self.params() if x == "params" else self.asset(x))
                if self.coin(.05):
                    b.append(self.loose())
            return self.i(s, self.rest(), self.legal(b))
        ls = []
        b = []
        if self.coin("refs"):
            if self.coin(.3):
                b = [self.p(self.reftext())]
            else:
                ls = [self.reftext()]
        elif self.coin(.8):
            b = [self.content(0)]
            if self.coin(.1):
                b.append(self.content())
        if not ls and self.coin(.05):
            ls = [self.pick(WORDS)]
        return self.i(s, ls, self.legal(b + self.junk()))

    def item(self):
        k = self.pick(["headers", "body", "schema", "params", "request", "response", "model", "relation", "text"])
        if k in ("request", "response"):
            return self.payload(k)
        if k == "model":
            return self.payload(k, self.pick(NAMES))
        if k == "headers":
            return self.headers()
        if k == "params":
            return self.params()
        if k == "relation":
            return self.relation()
        return self.text() if k == "text" else self.asset(k)

    def relation(self):
        return self.i(dict(k="relation", x=self.pick(RELS)), b=[self.text()] if self.coin(.05) else [])

    # ---- sections
    def uri(self):
        u = [dict(k="l", x=self.pick(["/", "/users", "/notes", "/a/b"]))]
        if self.coin("params"):
            u.append(dict(k="l", x="/"))
            u.append(dict(k="e", op=self.pick(["", "", "+", "#"]), vs=[self.pick(VARS)]))
        if self.coin(.3):
            u.append(dict(k="e", op=self.pick(["?", "&"]), vs=[self.pick(VARS) + ("*" if self.coin(.2) else "") for _ in range(self.r.randint(1, 3))]))
        return u

    def action_body(self):
        b = self.descs()
        if self.coin(.15):
            b.append(self.relation())
        if self.coin("params"):
            b.append(self.params())
        b += self.attributes(.3)
        if self.coin("headers") and self.coin(.4):
            b.append(self.headers())
        for _ in range(self.r.randint(0 if self.coin(.1) else 1, 3)):
            q = self.r.randint(0, 2) if self.coin(.5) else 0
            b += [self.payload("request") for _ in range(q)]
            b += [self.payload("response") for _ in range(self.r.randint(0 if q and self.coin(.05) else 1, 2))]
            if self.coin(.06):
                b.append(self.loose())
        if self.coin("junk"):
            b.insert(self.r.randint(0, len(b)), self.item())
        return b

    def action(self):
        m = self.pick(METHODS[:4]) if self.coin(.8) else self.pick(METHODS)
        k = self.r.random()
        s = dict(k="m", m=m) if k < .4 else dict(k="nm", x=self.pick(NAMES), m=m) if k < .8 else dict(k="nmuri", x=self.pick(NAMES), m=m, u=self.uri())
        return [self.h(s)] + self.action_body()

    def resource(self):
        k = self.r.random()
        if k < .15:
            return [self.h(dict(k="muri", m=self.pick(METHODS), u=self.uri()))] + self.action_body()
        if k < .2:
            return [self.h(dict(k="nmuri", x=self.pick(NAMES), m=self.pick(METHODS), u=self.uri()))] + self.action_body()
        s = dict(k="named", x=self.pick(NAMES), u=self.uri()) if self.coin(.7) else dict(k="uri", u=self.uri())
        b = self.descs()
        if self.coin("params"):
            b.append(self.params())
        if self.coin("headers") and self.coin(.3):
            b.append(self.headers())
        b += self.attributes(.4)
        if self.coin("model"):
            b.append(self.payload("model", self.pick(NAMES[:4]) if self.coin(.4) else ""))
            if self.coin(.06):
                b.append(self.loose())
        out = [self.h(s)] + b
        for _ in range(self.r.randint(0 if self.coin(.2) else 1, 3 if self.w["big"] > .5 else 1)):
            out += self.action()
        return out

    def group(self):
        out = [self.h(dict(k="group", x=self.pick(NAMES)))] + self.descs(3)
        for _ in range(self.r.randint(0, 2)):
            out += self.resource()
        return out

    def structures(self):
        return []

    def attributes(self, w=.5):
        return []

    def doc(self):
        d = []
        if self.coin("meta"):
            for _ in range(1 if self.coin(.8) else 2):
                d.append(self.p(*[self.pick(METAS[:3]) if self.coin(.8) else self.pick(METAS) for _ in range(self.r.randint(1, 3))]))
        if self.coin(.9):
            d.append(self.h(dict(k="text", x=self.pick(NAMES + ["My API"])), 1))
        d += self.descs()
        d += self.structures()
        for _ in range(self.r.randint(0 if self.coin(.1) else 1, 3 if self.w["big"] > .5 else 1)):
            d += self.group() if self.coin("group") else self.resource()
            if self.coin("typo"):
                d.append(self.h(dict(k="typo", x=self.pick(NAMES), m=self.pick(METHODS), r="users")))
            if self.coin("junk"):
                d.append(self.loose())
            if self.coin("junk") and self.coin(.3):
                d.append(self.h(dict(k="text", x="A heading")))
        return self.legal(d)

    def legal(self, bs):
        """without what Markdown would read as something else"""
        out = []
        for b in bs:
            if out and b["k"] == "c" and not b["f"] and out[-1]["k"] in ("i", "c"):
                b = dict(b, f=True)
            out.append(b)
        return out


def type_text(td):
    ps = ([td["ty"] + ("[" + ", ".join(td["nest"]) + "]" if td["nest"] else "")] if td["ty"] else []) + td["at"]
    return " (" + ", ".join(ps) + ")" if ps else ""


def values_text(lead, vs):
    return lead + ", ".join("*" + v["x"] + "*" if v["v"] else v["x"] for v in vs) if vs else ""


def head_text(s):
    k = s["k"]
    if k == "text":
        return s["x"]
    if k == "group":
        return "Group " + s["x"]
    if k == "ds":
        return "Data Structures"
    if k == "type":
        return s["x"] + type_text(s["td"])
    if k == "tsec":
        return s["c"] + values_text(": ", s["vs"])
    u = "".join(e["x"] if e["k"] == "l" else "{" + e["op"] + ",".join(e["vs"]) + "}" for e in s.get("u", []))
    return {"uri": "%(u)s", "muri": "%(m)s %(u)s", "named": "%(x)s [%(u)s]", "nmuri": "%(x)s [%(m)s %(u)s]", "m": "%(m)s", "nm": "%(x)s [%(m)s]",
            "typo": "%(x)s [%(m)s %(r)s]"}[k] % dict(s, u=u)


def item_text(s):
    k = s["k"]
    t = " (" + s["t"] + ")" if s.get("t") else ""
    sp = lambda x: " " + x if x else ""
    if k in ("request", "response"):
        return k.capitalize() + sp(s["n"]) + t + sp(s["j"])
    if k == "model":
        return (s["n"] + " " if s["n"] else "") + "Model" + t
    if k == "params":
        return "Parameters"
    if k in ("relation", "default", "sample"):
        return k.capitalize() + ": " + s["x"]
    if k == "val":
        return "`" + s["x"] + "`"
    if k == "text":
        return s["x"]
    if k == "attributes":
        return "Attributes" + type_text(s["td"])
    if k == "mem":
        name = "*" + s["nm"] + type_text(s["kt"]) + "*" if s["nv"] else s["nm"]
        head = name + values_text(": ", s["vs"]) if s["nm"] else values_text("", s["vs"])
        return (head + type_text(s["td"]) + sp(s["d"] and "- " + s["d"])).lstrip()
    if k == "sec":
        return s["c"] + values_text(": ", s["vs"])
    if k == "mix":
        return "Include" + sp(s["x"]) + type_text(s["td"])
    if k == "one":
        return "One Of"
    if k == "param":
        x = "" if not s["x"] else " = `" + s["x"] + "`" if s["old"] else ": " + s["x"]
        d = "" if not s["d"] else (" ... " if s["old"] else " - ") + s["d"]
        return s["n"] + x + (" (" + ", ".join(s["at"]) + ")" if s["at"] else "") + d
    return k.capitalize()


def indent(ls):
    return ["    " + l if l else "" for l in ls]


def block_lines(b):
    k = b["k"]
    if k == "h":
        return ["#" * b["lv"] + " " + head_text(b["s"])]
    if k == "p":
        return b["ls"]
    if k == "c":
        return ["```"] + b["ls"] + ["```"] if b["f"] else indent(b["ls"])
    return ["+ " + item_text(b["s"])] + indent(b["ls"]) + ([] if not b["b"] else ([] if b["g"] else [""]) + indent(blocks_lines(b["b"], b["g"])))


def blocks_lines(bs, tight=False):
    out = []
    for i, b in enumerate(bs):
        out += ([""] if i and not tight else []) + block_lines(b)
    return out


def text(d):
    return "\n".join(blocks_lines(d)) + "\n" if d else ""


class Ops:
    def __init__(self, r, weights):
        self.r = r
        if r.random() < weights.get("mson", 0):
            import msongen
            self.g = msongen.Typed(r, weights)
        else:
            self.g = Docs(r, weights)

    def draw(self, st):
        d = self.g.doc()
        return dict(op="parse", doc=d, text=text(d), opts=dict(name=self.r.random() < .15, bodies=self.r.random() < .2, schemas=self.r.random() < .2, maps=self.g.coin('maps')))

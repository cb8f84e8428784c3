"""Random elements and operations for the trace checks.  Everything is drawn from one Random."""
import random

NIL = {"t": "nil", "n": "", "m": [], "a": [], "s": False, "v": "", "c": []}
PRIM = ["null", "boolean", "number", "string", "ref"]
LIST = ["array", "object", "extend", "option", "select"]
BOXED = ["enum", "holder"]
KINDS = PRIM + LIST + BOXED + ["member"]
MERGEABLE = ["string", "number", "boolean", "array", "object", "enum", "ref"]
RESERVED = ["array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string"]


def defname(t):
    return "" if t == "holder" else t


def nil(e):
    return e["t"] == "nil"


class Gen:
    """How elements are drawn; attributes are overridden by the profiles."""
    names = ["A", "B", "C", "string", "object"]
    p_name = 0.15          # element bears another name than its kind's
    p_unset = 0.2
    p_meta = 0.3
    p_attr = 0.3
    depth = 3
    width = 3
    strings = ["", "a", "b", "c", "A", "B"]
    keys = ["a", "b", "c", "d"]
    numbers = ["0", "1", "42", "-7", "1.5", "007", "9007199254740993"]
    meta_keys = ["id", "description", "ref", "prefix", "namespace", "x", "y", "title"]
    attr_keys = ["typeAttributes", "variable", "default", "samples", "enumerations", "sourceMap", "k", "z"]
    type_attrs = ["fixed", "fixedType", "required", "optional", "nullable", "sample"]
    kinds = KINDS
    string_keys = 0.9      # members with plain string keys
    wild = 0.1             # attributes not of their conventional kind
    nil_kids = 0.0         # missing member values, enum values
    list_wild = 0.15       # children of an object that are not members
    unset_member = 0.05
    unset_key = 0.05
    named_kinds = None     # kinds that may bear other names (None: all)
    info_depth = 1
    p_near = 0.08          # a key or type attribute is only similar to its conventional spelling

    def __init__(self, r):
        self.r = r

    def coin(self, p):
        return self.r.random() < p

    def value(self, t):
        r = self.r
        return {"null": "", "boolean": r.choice(["true", "false"]), "number": r.choice(self.numbers),
                "string": r.choice(self.strings), "ref": r.choice(self.names[:3] + [""])}[t]

    def string(self, x=None, plain=True):
        e = {"t": "string", "n": "string", "m": [], "a": [], "s": True, "v": self.r.choice(self.strings) if x is None else x, "c": []}
        return e

    def arr(self, kids):
        return {"t": "array", "n": "array", "m": [], "a": [], "s": True, "v": "", "c": kids}

    def key(self, d):
        r = self.r
        if self.coin(self.string_keys):
            k = self.string(r.choice(self.keys))
            if self.coin(self.unset_key):
                k["s"], k["v"] = False, ""
            return k
        return self.el(d - 1, r.choice([k for k in ["string", "extend", "number", "string", "extend"]]))

    def kids(self, t, d):
        r = self.r
        n = r.randint(0, self.width) if d > 0 else 0
        if t == "holder" or t == "enum":
            if self.coin(self.nil_kids):
                return [NIL]
            return [self.el(d - 1, self.kind(d - 1, t))]
        if t == "member":
            v = NIL if self.coin(self.nil_kids) else self.el(d - 1, self.kind(d - 1, t))
            return [self.key(d), v]
        if t == "select":
            return [self.el(d - 1, "option") for _ in range(n)]
        if t == "object" or t == "option":
            out = []
            for _ in range(n):
                if self.coin(self.list_wild):
                    out.append(self.el(d - 1, r.choice(self.object_extra())))
                else:
                    out.append(self.el(d - 1, "member"))
            return out
        if t == "extend":
            k = self.kind(d - 1, t)
            return [self.el(d - 1, self.kind(d - 1, t) if self.coin(0.15) else k) for _ in range(n)]
        return [self.el(d - 1, self.kind(d - 1, t)) for _ in range(n)]

    def object_extra(self):
        return ["select", "ref", "string", "member", "extend"]

    def kind(self, d, parent=None):
        ks = self.kinds
        if d <= 0:
            ks = [k for k in ks if k in PRIM] or ["string"]
        return self.r.choice(ks)

    def info(self, which, t, d):
        """entries with distinct keys"""
        r = self.r
        out = []
        if not self.coin(self.p_meta if which == "m" else self.p_attr):
            return out
        ks = list(self.meta_keys if which == "m" else self.attr_keys)
        r.shuffle(ks)
        for k in ks[:r.randint(1, 3)]:
            e = self.entry(which, k, t, d)
            k = self.near(k)
            if e is not None and k not in [p["k"] for p in out]:
                out.append({"k": k, "el": e})
        return out

    def near(self, k):
        """now and then a key that only looks like k"""
        if not self.coin(self.p_near):
            return k
        return self.r.choice([k + "s", k[:-1], k.capitalize(), "x" + k, k + "-x", k + " ", ""])

    def small(self, t=None, d=1):
        g = self
        return g.el(min(d, g.info_depth), t or self.kind(min(d, g.info_depth)), 0.1)

    def entry(self, which, k, t, d):
        r = self.r
        if self.coin(self.wild):
            return self.wild_entry(which, k, t, d)
        if which == "m":
            if k in ("id", "ref", "description", "title", "prefix", "namespace"):
                return self.string(r.choice(self.names if k in ("id", "ref") else self.strings))
            return self.small(None, d)
        if k == "typeAttributes":
            return self.arr([self.string(self.near(x)) for x in r.sample(self.type_attrs, r.randint(0, 2))])
        if k == "variable":
            return {"t": "boolean", "n": "boolean", "m": [], "a": [], "s": True, "v": r.choice(["true", "false"]), "c": []}
        if k == "default":
            return self.small(t if self.coin(0.8) else None, d)
        if k == "samples":
            return self.arr([self.small(t if self.coin(0.8) else None, d) for _ in range(r.randint(0, 2))])
        if k == "enumerations":
            return self.arr([self.small(None, d) for _ in range(r.randint(0, 3))])
        if k == "sourceMap":
            return self.arr([{"t": "number", "n": "number", "m": [], "a": [], "s": True, "v": r.choice(["1", "2"]), "c": []}])
        return self.small(None, d)

    def wild_entry(self, which, k, t, d):
        return self.small(None, d)

    def el(self, d=None, t=None, scale=1.0):
        r = self.r
        d = self.depth if d is None else d
        t = t or self.kind(d)
        e = {"t": t, "n": defname(t), "m": [], "a": [], "s": True, "v": "", "c": []}
        if self.coin(self.p_name * (1 if scale == 1.0 else 0.5)) and (self.named_kinds is None or t in self.named_kinds):
            e["n"] = r.choice(self.names)
        if d >= 0 and self.coin(scale):
            e["m"] = self.info("m", t, d - 1)
            e["a"] = self.info("a", t, d - 1)
        if self.coin(self.unset_member if t == "member" else self.p_unset):
            e["s"] = False
        elif t in PRIM:
            e["v"] = self.value(t)
        else:
            e["c"] = self.kids(t, d)
        return self.fix(e)

    def fix(self, e):
        return e

    def broad(self):
        """an element that is large in one way: many entries, many children, a long text, deep nesting"""
        r = self.r
        how = r.choice("imktnd")
        n = r.randint(9, 20)
        t = self.kind(1)
        if how in "im":
            e = self.el(0, t)
            e["a" if how == "i" else "m"] += [{"k": "k%d" % i, "el": self.string("v%d" % i)} for i in range(n)]
        elif how in "kn":
            t = r.choice(["object", "array", "extend", "select", "option"])
            e = self.el(0, t)
            ks = ["m%d" % i for i in range(n)]
            if how == "n" and t == "object":
                ks[-1] = ks[r.randrange(n - 1)]
            item = {"object": lambda k: self.member(k), "option": lambda k: self.member(k), "array": lambda k: self.string(k),
                    "extend": lambda k: self.string(k), "select": lambda k: self.hollow("option", [self.member(k)])}[t]
            e["s"], e["v"], e["c"] = True, "", [item(k) for k in ks]
        elif how == "t":
            e = self.string("".join(r.choice("ab \u00e9\u20ac\"\\") for _ in range(r.randint(60, 300))))
        else:
            e = self.string("x")
            for i in range(n):
                e = self.hollow("array", [e]) if r.random() < .5 else self.hollow("object", [self.member("d%d" % i, e)])
        return self.fix(e)

    def hollow(self, t, c):
        return {"t": t, "n": defname(t), "m": [], "a": [], "s": True, "v": "", "c": c}

    def member(self, k, v=None):
        return self.hollow("member", [self.string(k), v or self.string("1")])

    def chain(self):
        """an extend element of (mostly) one kind"""
        r = self.r
        t = r.choice(MERGEABLE + ["object"] * 4 + ["enum", "array"])
        kids = []
        for _ in range(r.randint(0, 4) if not self.coin(.03) else r.randint(5, 9)):
            k = t
            if self.coin(0.06):
                k = r.choice(KINDS)
            kids.append(self.el(self.depth - 1, k))
        if self.coin(0.05):
            kids.insert(r.randint(0, len(kids)), NIL)
        e = self.el(0, "extend")
        e["s"], e["c"] = True, kids
        return e

    def definition(self):
        """a definition of a named type"""
        r = self.r
        e = self.el(self.depth - 1, r.choice(["object"] * 4 + ["string", "number", "array", "enum", "boolean"]))
        e["m"] = [p for p in e["m"] if p["k"] != "id"]
        x = r.random()
        if x < 0.9:
            idv = self.string(r.choice(self.names + ["A", "B", "C"]))
        elif x < 0.95:
            idv = self.small()
        else:
            idv = None
        if idv is not None:
            e["m"].insert(r.randint(0, len(e["m"])), {"k": "id", "el": idv})
        if self.coin(0.5):
            e["n"] = r.choice(["A", "B", "C"])
        return e


# ---------------------------------------------------------------------- walking states
def size(e):
    if nil(e):
        return 0
    return 1 + sum(size(p["el"]) for p in e["m"]) + sum(size(p["el"]) for p in e["a"]) + sum(size(c) for c in e["c"])


def nodes(e, path=(), mutable=True):
    """(path, element, mutable) for every element in the tree, meta and attributes included"""
    if nil(e):
        return
    yield list(path), e, mutable
    for w in "ma":
        for i, p in enumerate(e[w]):
            yield from nodes(p["el"], path + ((w, i + 1),), mutable)
    for i, c in enumerate(e["c"]):
        ok = mutable and (e["t"] in LIST or (e["t"] == "member" and i == 1))
        yield from nodes(c, path + (("c", i + 1),), ok)


def all_of(e, pred, content_only=False):
    """pred holds for every node reachable through content (and meta/attributes)"""
    if nil(e):
        return True
    if not pred(e):
        return False
    subs = list(e["c"])
    if not content_only:
        subs += [p["el"] for p in e["m"]] + [p["el"] for p in e["a"]]
    return all(all_of(c, pred, content_only) for c in subs)


def attr(e, k):
    for p in e["a"]:
        if p["k"] == k:
            return p["el"]
    return NIL


def meta(e, k):
    for p in e["m"]:
        if p["k"] == k:
            return p["el"]
    return NIL


def unique_info(e):
    return all(len({p["k"] for p in e[w]}) == len(e[w]) for w in "ma")


def whole(e):
    return e["t"] not in LIST or not any(nil(c) for c in e["c"])


def find(c, name):
    for i, e in enumerate(c):
        if e["t"] == "member" and e["s"] and e["c"][0]["t"] == "string" and e["c"][0]["s"] and e["c"][0]["v"] == name:
            return i + 1
    return 0


class Ops:
    """Draws operations that are legal in the current state."""
    def __init__(self, r, gen, weights):
        self.r, self.g = r, gen
        self.names = list(weights)
        self.w = [weights[n] for n in self.names]
        self.max_nodes = 64

    # --- choosing places
    def full(self, slots):
        return [i + 1 for i, e in enumerate(slots) if not nil(e)]

    def empty_or_any(self, slots):
        r = self.r
        free = [i + 1 for i, e in enumerate(slots) if nil(e)]
        return r.choice(free) if free and r.random() < 0.7 else r.randint(1, len(slots))

    def place(self, slots, pred=lambda e: True, mutable=True, slot=None, gaps=False):
        """a position in a slot; containers with missing children only where they are allowed"""
        cand = []
        for i in ([slot] if slot else self.full(slots)):
            for p, e, m in nodes(slots[i - 1]):
                if (m or not mutable) and pred(e) and (gaps or all_of(e, whole)):
                    cand.append((i, p, e))
        return self.r.choice(cand) if cand else None

    @staticmethod
    def disjoint(i, p, j, q):
        if i != j:
            return True
        n = min(len(p), len(q))
        return p[:n] != q[:n]

    def draw(self, st):
        slots = st["slots"]
        if not self.full(slots):
            return self.op_lit(slots, st)
        for i in self.full(slots):
            if size(slots[i - 1]) > self.max_nodes:
                return {"op": "drop", "d": i}
        for _ in range(50):
            name = self.r.choices(self.names, self.w)[0]
            o = getattr(self, "op_" + name)(slots, st)
            if o is not None:
                return o
        return self.op_lit(slots, st)

    # --- ownership
    def op_lit(self, slots, st):
        return {"op": "lit", "d": self.empty_or_any(slots), "el": self.g.broad() if self.r.random() < .03 else self.g.el()}

    def op_drop(self, slots, st):
        return {"op": "drop", "d": self.r.choice(self.full(slots))}

    def op_clone(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": self.r.choice(["clone", "clonet"]), "d": self.r.randint(1, 4), "s": x[0], "q": x[1],
                "f": self.r.choice([15, 15, self.r.randint(0, 31)])}

    def op_flags(self, slots, st):
        x = self.place(slots, lambda e: e["m"] or e["a"] or True, mutable=False)
        return {"op": self.r.choice(["clone", "clonet"]), "d": self.r.randint(1, 4), "s": x[0], "q": x[1], "f": self.r.randint(0, 31)}

    def op_copy(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": "copy", "d": self.r.randint(1, 4), "s": x[0], "q": x[1]}

    def op_move(self, slots, st):
        s = self.r.choice(self.full(slots))
        d = self.r.choice([i for i in range(1, 5) if i != s])
        return {"op": "move", "d": d, "s": s}

    def op_assign(self, slots, st):
        x = self.place(slots)
        y = self.place(slots, lambda e: e["t"] == x[2]["t"], mutable=False)
        if not (self.disjoint(x[0], x[1], y[0], y[1]) or (x[0] == y[0] and x[1] == y[1])):
            return None
        if not self.fits(x, y[2]):
            return None
        return {"op": "assign", "d": x[0], "p": x[1], "s": y[0], "q": y[1]}

    def op_selfassign(self, slots, st):
        x = self.place(slots)
        return {"op": "assign", "d": x[0], "p": x[1], "s": x[0], "q": x[1]}

    def op_massign(self, slots, st):
        s = self.r.choice(self.full(slots))
        x = self.place(slots, lambda e: e["t"] == slots[s - 1]["t"])
        if x is None or x[0] == s or not self.fits(x, slots[s - 1]):
            return None
        return {"op": "massign", "d": x[0], "p": x[1], "s": s}

    def fits(self, x, new):
        return True

    def op_setdata(self, slots, st):
        x = self.place(slots)
        e = self.g.el(self.g.depth - 1, x[2]["t"])
        if not e["s"]:
            return None
        return {"op": "setdata", "d": x[0], "p": x[1], "el": e}

    def op_setdef(self, slots, st):
        x = self.place(slots)
        return {"op": "setdef", "d": x[0], "p": x[1]}

    def op_name(self, slots, st):
        x = self.place(slots)
        return {"op": "name", "d": x[0], "p": x[1], "x": self.r.choice(self.g.names + ["", x[2]["n"], x[2]["t"]])}

    def op_mk(self, slots, st):
        r = self.r
        t = r.choice(KINDS)
        hows = ["empty", "new", "default", "named", "gen"]
        if t in ("string", "number", "boolean"):
            hows += ["prim", "primt", "made"] * 2
        if t == "ref":
            hows += ["primt", "made"]
        how = r.choice(hows)
        x = self.g.value(t) if t in PRIM else ""
        if t == "number" and how in ("prim", "primt"):
            x = str(r.choice([0, 1, -1, 42, -2147483648, 2147483648, 9223372036854775807, -9223372036854775807]))
        return {"op": "mk", "d": self.empty_or_any(slots), "t": t, "how": how, "n": r.choice(self.g.names), "x": x}

    def op_reserved(self, slots, st):
        x = self.r.choice(RESERVED + ["", "Array", "strin", "strings", "holder", "a", "zzz", "arra", "arrays", "enumeration", "generi",
                                      "option ", "optio", "objects", "mixin", "A"])
        return {"op": "reserved", "x": x}

    # --- meta and attributes
    def infoplace(self, slots, pred=lambda e, w: True, mutable=True):
        cand = []
        for i in self.full(slots):
            for p, e, m in nodes(slots[i - 1]):
                if m or not mutable:
                    for w in "ma":
                        if pred(e, w):
                            cand.append((i, p, e, w))
        return self.r.choice(cand) if cand else None

    def key_for(self, e, w):
        r = self.r
        have = [p["k"] for p in e[w]]
        if have and r.random() < 0.6:
            return r.choice(have)
        return r.choice((self.g.meta_keys if w == "m" else self.g.attr_keys) + ["", "q"])

    def op_iset(self, slots, st):
        i, p, e, w = self.infoplace(slots)
        k = self.key_for(e, w)
        el = self.g.entry(w, k, e["t"], 1)
        return {"op": "iset", "d": i, "p": p, "w": w, "k": k, "el": el}

    def op_isetc(self, slots, st):
        i, p, e, w = self.infoplace(slots)
        y = self.place(slots, lambda x: size(x) < 8, mutable=False)
        if y is None:
            return None
        return {"op": "isetc", "d": i, "p": p, "w": w, "k": self.key_for(e, w), "s": y[0], "q": y[1]}

    def op_ierase(self, slots, st):
        i, p, e, w = self.infoplace(slots)
        return {"op": "ierase", "d": i, "p": p, "w": w, "k": self.key_for(e, w)}

    def op_ieraseat(self, slots, st):
        x = self.infoplace(slots, lambda e, w: e[w])
        if not x:
            return None
        i, p, e, w = x
        return {"op": "ieraseat", "d": i, "p": p, "w": w, "i": self.r.randint(1, len(e[w]))}

    def op_iclaim(self, slots, st):
        i, p, e, w = self.infoplace(slots)
        return {"op": "iclaim", "d": i, "p": p, "w": w, "k": self.key_for(e, w), "j": self.r.randint(1, 4)}

    def op_iclaimat(self, slots, st):
        x = self.infoplace(slots, lambda e, w: e[w])
        if not x:
            return None
        i, p, e, w = x
        return {"op": "iclaimat", "d": i, "p": p, "w": w, "i": self.r.randint(1, len(e[w])), "j": self.r.randint(1, 4)}

    def op_iclear(self, slots, st):
        x = self.infoplace(slots, lambda e, w: e[w])
        return x and {"op": "iclear", "d": x[0], "p": x[1], "w": x[3]}

    def op_ifind(self, slots, st):
        i, p, e, w = self.infoplace(slots)
        return {"op": "ifind", "d": i, "p": p, "w": w, "k": self.key_for(e, w)}

    def info2(self, slots, op, alias):
        i, p, e, w = self.infoplace(slots)
        wide = self.r.random() < .3
        few = (lambda e, w: 5 <= len(e[w]) < 26) if wide and any(len(x[w]) > 8 for k in self.full(slots) for _, x, _ in nodes(slots[k - 1]) for w in "ma") \
            else (lambda e, w: len(e[w]) < 5 and sum(size(x["el"]) for x in e[w]) < 12)
        j, q, f, u = self.infoplace(slots, few, mutable=op in ("imove", "iswap", "inewm")) or (None,) * 4
        if j is None:
            return None
        same = i == j and p == q
        if same and w == u:
            if op == "iclone":
                return None
        elif same:
            pass
        elif not self.disjoint(i, p, j, q) and not alias:
            return None
        return {"op": op, "d": i, "p": p, "w": w, "s": j, "q": q, "u": u}

    def op_icopy(self, slots, st):
        return self.info2(slots, self.r.choice(["icopy", "inew"]), True)

    def op_imove(self, slots, st):
        return self.info2(slots, self.r.choice(["imove", "imove", "inewm"]), False)

    def op_iclone(self, slots, st):
        o = self.info2(slots, "iclone", False)
        return o

    def op_iswap(self, slots, st):
        return self.info2(slots, "iswap", False)

    # --- containers
    def listplace(self, slots, pred=lambda e: True):
        return self.place(slots, lambda e: e["t"] in LIST and e["s"] and pred(e))

    def kid_for(self, e):
        t = e["t"]
        g = self.g
        if t == "select":
            return g.el(1, "option")
        if t in ("object", "option") and not g.coin(g.list_wild):
            return g.el(2, "member")
        return g.el(1)

    def op_push(self, slots, st):
        x = self.listplace(slots)
        return x and {"op": "push", "d": x[0], "p": x[1], "el": self.kid_for(x[2])}

    def op_pushs(self, slots, st):
        x = self.listplace(slots)
        if not x:
            return None
        c = [i for i in self.full(slots) if i != x[0] and (x[2]["t"] != "select" or slots[i - 1]["t"] == "option")]
        if not c:
            return None
        if self.r.random() < 0.5:
            return {"op": "pushs", "d": x[0], "p": x[1], "s": self.r.choice(c)}
        return {"op": "inss", "d": x[0], "p": x[1], "s": self.r.choice(c), "i": self.r.randint(1, len(x[2]["c"]) + 1)}

    def op_ins(self, slots, st):
        x = self.listplace(slots)
        return x and {"op": "ins", "d": x[0], "p": x[1], "i": self.r.randint(1, len(x[2]["c"]) + 1), "el": self.kid_for(x[2])}

    def op_era(self, slots, st):
        x = self.listplace(slots, lambda e: e["c"])
        return x and {"op": "era", "d": x[0], "p": x[1], "i": self.r.randint(1, len(x[2]["c"]))}

    def op_erange(self, slots, st):
        x = self.listplace(slots)
        if not x:
            return None
        n = len(x[2]["c"])
        i = self.r.randint(1, n + 1)
        return {"op": "erange", "d": x[0], "p": x[1], "i": i, "j": self.r.randint(i, n + 1)}

    def op_clr(self, slots, st):
        x = self.listplace(slots)
        return x and {"op": "clr", "d": x[0], "p": x[1]}

    def op_lst(self, slots, st):
        x = self.listplace(slots)
        return x and {"op": "lst", "d": x[0], "p": x[1]}

    def op_take(self, slots, st):
        x = self.listplace(slots, lambda e: e["c"])
        return x and {"op": "take", "d": x[0], "p": x[1], "i": self.r.randint(1, len(x[2]["c"])), "j": self.r.randint(1, 4)}

    def key_in(self, e):
        have = [c["c"][0]["v"] for c in e["c"] if c["t"] == "member" and c["s"] and c["c"][0]["t"] == "string" and c["c"][0]["s"]]
        if have and self.r.random() < 0.7:
            return self.r.choice(have)
        return self.r.choice(self.g.keys + [""])

    def op_addm(self, slots, st):
        x = self.listplace(slots, lambda e: e["t"] == "object")
        return x and {"op": "addm", "d": x[0], "p": x[1], "k": self.key_in(x[2]), "el": self.g.el(1)}

    def op_find(self, slots, st):
        x = self.listplace(slots, lambda e: e["t"] == "object")
        return x and {"op": "find", "d": x[0], "p": x[1], "k": self.key_in(x[2])}

    def data2(self, slots, op):
        x = self.place(slots, lambda e: e["s"])
        if not x:
            return None
        y = self.place(slots, lambda e: e["t"] == x[2]["t"] and e["s"], mutable=op != "dcopy")
        if not y:
            return None
        same = x[0] == y[0] and x[1] == y[1]
        if op != "dcopy" and not self.disjoint(x[0], x[1], y[0], y[1]) and not (same and op == "dswap"):
            return None
        if op == "dswap" and x[2]["t"] in ("null", "boolean", "number", "string", "ref") and same:
            return None
        return {"op": op, "d": x[0], "p": x[1], "s": y[0], "q": y[1]}

    def op_dcopy(self, slots, st):
        return self.data2(slots, "dcopy")

    def op_dmove(self, slots, st):
        return self.data2(slots, "dmove")

    def op_dswap(self, slots, st):
        return self.data2(slots, "dswap")

    def op_mval(self, slots, st):
        x = self.place(slots, lambda e: e["t"] == "member" and e["s"])
        return x and {"op": "mval", "d": x[0], "p": x[1], "el": self.g.el(1)}

    def op_mclaim(self, slots, st):
        x = self.place(slots, lambda e: e["t"] == "member" and e["s"])
        return x and {"op": "mclaim", "d": x[0], "p": x[1], "j": self.r.randint(1, 4)}

    def op_eclaim(self, slots, st):
        x = self.place(slots, lambda e: e["t"] in BOXED and e["s"])
        return x and {"op": "eclaim", "d": x[0], "p": x[1], "j": self.r.randint(1, 4)}

    # --- comparison
    def op_eq(self, slots, st):
        x = self.place(slots, mutable=False)
        r = self.r.random()
        y = self.place(slots, (lambda e: e["t"] == x[2]["t"]) if r < 0.7 else (lambda e: True), mutable=False)
        return {"op": "eq", "d": x[0], "p": x[1], "s": y[0], "q": y[1]}

    def op_ieq(self, slots, st):
        o = self.op_eq(slots, st)
        o["op"] = "ieq"
        return o

    def op_deq(self, slots, st):
        x = self.place(slots, lambda e: e["s"], mutable=False)
        y = x and self.place(slots, lambda e: e["t"] == x[2]["t"] and e["s"], mutable=False)
        return y and {"op": "deq", "d": x[0], "p": x[1], "s": y[0], "q": y[1]}

    def op_teq(self, slots, st):
        r = self.r
        x = self.place(slots, mutable=False)
        near = r.random()
        y = self.place(slots, (lambda e: e["t"] == x[2]["t"]) if near < 0.8 else (lambda e: True), mutable=False)
        o = {"op": "teq", "d": x[0], "p": x[1], "s": y[0], "q": y[1], "mode": r.choice(["default", "keys", "keys"]), "ia": [], "im": []}
        if not all_of(x[2], unique_info) or not all_of(y[2], unique_info):
            return None
        if o["mode"] == "keys":
            o["ia"] = r.sample(self.g.attr_keys, r.randint(0, 2))
            o["im"] = r.sample(self.g.meta_keys, r.randint(0, 2))
        return o

    def op_mutcopy(self, slots, st):
        """a copy differing in exactly one place, to be compared"""
        import copy
        r = self.r
        s = r.choice(self.full(slots))
        e = copy.deepcopy(slots[s - 1])
        ns = [n for _, n, _ in nodes(e)]
        n = r.choice(ns)
        how = r.randint(0, 9)
        if how == 0:
            n["n"] = r.choice(self.g.names + ["zz"])
        elif how == 1 and n["t"] in PRIM and n["t"] != "null":
            n["v"] = self.g.value(n["t"])
            n["s"] = True
        elif how == 2 and n["c"] and n["t"] in LIST:
            del n["c"][r.randrange(len(n["c"]))]
        elif how == 3 and len(n["c"]) > 1 and n["t"] in LIST:
            r.shuffle(n["c"])
        elif how == 4:
            w = r.choice("ma")
            r.shuffle(n[w])
        elif how == 5:
            w = r.choice("ma")
            if n[w]:
                del n[w][r.randrange(len(n[w]))]
        elif how == 6:
            w = r.choice("ma")
            k = self.key_for(n, w)
            if k not in [p["k"] for p in n[w]]:
                n[w].insert(r.randint(0, len(n[w])), {"k": k, "el": self.g.entry(w, k, n["t"], 1)})
        elif how == 7:
            if n["t"] == "member" and n["s"]:
                n["c"][1] = self.g.el(1)
            elif n["t"] in LIST and n["c"] and n["t"] != "select":
                n["c"][r.randrange(len(n["c"]))] = self.kid_for(n)
        elif how == 8:
            w = r.choice("ma")
            if n[w]:
                p = r.choice(n[w])
                p["el"] = self.g.entry(w, p["k"], n["t"], 1)
        if not all_of(e, unique_info):
            return None
        return {"op": "lit", "d": r.choice([i for i in range(1, 5) if i != s]), "el": e}

    # --- merging, expansion, registry
    def op_merge(self, slots, st):
        x = self.place(slots, lambda e: e["t"] == "extend" and e["s"] and mergeable(e) and all(nil(c) or all_of(c, whole) for c in e["c"]), mutable=False, gaps=True)
        return x and {"op": "merge", "d": self.r.randint(1, 4), "s": x[0], "q": x[1]}

    def op_litext(self, slots, st):
        e = self.g.chain()
        return {"op": "lit", "d": self.empty_or_any(slots), "el": e}

    def op_expand(self, slots, st):
        x = self.place(slots, lambda e: expandable_input(e), mutable=False)
        return x and {"op": "expand", "d": self.r.randint(1, 4), "s": x[0], "q": x[1], "by": self.r.random() < 0.3}

    def op_expandable(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": "expandable", "s": x[0], "q": x[1]}

    def op_radd(self, slots, st):
        s = self.r.choice(self.full(slots))
        return {"op": "radd", "s": s}

    def op_litdef(self, slots, st):
        return {"op": "lit", "d": self.empty_or_any(slots), "el": self.g.definition()}

    def regname(self, st):
        have = [e["k"] for e in st["reg"]]
        if have and self.r.random() < 0.7:
            return self.r.choice(have)
        return self.r.choice(self.g.names + RESERVED[:3] + ["", "Z"])

    def op_rfind(self, slots, st):
        return {"op": "rfind", "k": self.regname(st)}

    def op_rremove(self, slots, st):
        return {"op": "rremove", "k": self.regname(st)}

    def op_rclear(self, slots, st):
        return {"op": "rclear"}

    def op_rroot(self, slots, st):
        return {"op": "rroot", "k": self.regname(st)}

    # --- queries
    def op_visit(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": "visit", "s": x[0], "q": x[1]}

    def op_walk(self, slots, st):
        x = self.place(slots, mutable=False)
        names = [e["n"] for _, e, _ in nodes(x[2])]
        return {"op": "walk", "s": x[0], "q": x[1], "x": self.r.choice(names + ["zz"])}

    def op_size(self, slots, st):
        x = self.place(slots, sizeable, mutable=False)
        return x and {"op": "size", "s": x[0], "q": x[1], "b": self.r.random() < 0.4}

    def op_card(self, slots, st):
        v = [-1, -1, 0, 0, 1, 1, 2, 3, 7, 100, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, None, None]

        def c():
            x = self.r.choice(v)
            if x is None:
                x = self.r.randrange(2 ** self.r.randint(1, 32) - 1)
            return [] if x == -1 else [x >> 8 * k & 255 for k in range(4)]
        return {"op": "card", "i": c(), "j": c()}

    def op_value(self, slots, st):
        x = self.place(slots, lambda e: e["t"] in MERGEABLE + ["null", "extend", "select", "option", "member", "holder"], mutable=False)
        return x and {"op": "value", "s": x[0], "q": x[1]}

    def op_uvalue(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": "uvalue", "s": x[0], "q": x[1]}

    def op_inherits(self, slots, st):
        x = self.place(slots, inheritable, mutable=False)
        return x and {"op": "inherits", "s": x[0], "q": x[1]}

    def op_rkey(self, slots, st):
        x = self.place(slots, keyable, mutable=False)
        return x and {"op": "rkey", "s": x[0], "q": x[1]}

    def op_uset(self, slots, st):
        r = self.r
        how = r.choice(["fixed", "ta", "ta", "default", "sample", "sample", "enum"])
        k = {"fixed": "typeAttributes", "ta": "typeAttributes", "default": None, "sample": "samples", "enum": "enumerations"}[how]
        x = self.place(slots, lambda e: k is None or nil(attr(e, k)) or (attr(e, k)["t"] == "array" and attr(e, k)["s"]))
        if not x:
            return None
        return {"op": "uset", "d": x[0], "p": x[1], "how": how, "x": r.choice(self.g.type_attrs), "el": self.g.small(x[2]["t"])}

    def op_attrs(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": "attrs", "s": x[0], "q": x[1], "x": self.r.choice(self.g.type_attrs + ["fixe", "a"])}

    def op_descr(self, slots, st):
        x = self.place(slots, mutable=False)
        return {"op": "descr", "s": x[0], "q": x[1], "k": self.r.choice(self.g.meta_keys + self.g.attr_keys)}

    def op_appinfo(self, slots, st):
        r = self.r
        k = r.choice(["typeAttributes", "typeAttributes", "samples", "k"])
        x = self.infoplace(slots, lambda e, w: nil(attr(e, k) if w == "a" else meta(e, k)) or (attr(e, k) if w == "a" else meta(e, k))["t"] == "array")
        return x and {"op": "appinfo", "d": x[0], "p": x[1], "w": x[3], "k": k, "x": r.choice(self.g.type_attrs + self.g.strings)}

    def op_bykey(self, slots, st):
        x = self.place(slots, lambda e: e["t"] == "object" and e["s"], mutable=False)
        return x and {"op": "bykey", "s": x[0], "q": x[1], "k": self.key_in(x[2])}

    def op_keystr(self, slots, st):
        x = self.place(slots, lambda e: e["t"] == "member" and e["s"] and all_of(e["c"][0], mergeable), mutable=False)
        return x and {"op": "keystr", "s": x[0], "q": x[1]}

    def op_cmp(self, slots, st):
        x = self.place(slots, mutable=False)
        pool = [e["v"] for _, e, _ in nodes(x[2]) if e["t"] == "string" and e["s"]]
        return {"op": "cmp", "s": x[0], "q": x[1], "k": self.r.choice(pool + self.g.strings)}

    def op_dump(self, slots, st):
        x = self.place(slots, lambda e: all_of(e, dumpable), mutable=False)
        return x and {"op": "dump", "s": x[0], "q": x[1], "i": self.r.randint(0, 2), "b": self.r.random() < 0.5,
                      "how": self.r.choice(["call", "visit"])}


# ------------------------------------------------------------------ contracts of the code
def keyed(m):
    return m["s"] and not nil(m["c"][0])


def mergeable(e):
    """extend elements whose merging stays within the contract of the code (errors included)"""
    if e["t"] != "extend":
        return True
    for c in e["c"]:
        if c["t"] == "object":
            for k in c["c"]:
                if k["t"] == "member" and not keyed(k):
                    return False
                if k["t"] == "select":
                    for o in k["c"]:
                        if not all(keyed(x) for x in o["c"] if x["t"] == "member"):
                            return False
        if c["t"] == "enum":
            en = attr(c, "enumerations")
            if not nil(en) and (en["t"] != "array" or not en["s"]):
                return False
    return True


def expandable_input(e):
    def ok(x):
        if x["t"] == "member":
            return x["s"] and x["n"] == "member"
        if x["t"] == "select":
            return x["n"] == "select"
        if x["t"] == "option":
            return x["n"] == "option"
        if x["t"] == "enum":
            en = attr(x, "enumerations")
            return nil(en) or (en["t"] == "array" and en["s"] and en["n"] == "array" and all_of(en, ok, True))
        return True
    return all_of(e, ok, True)


def sizeable(e):
    def ok(x):
        if x["t"] == "ref":
            return not nil(attr(x, "resolved"))
        if x["t"] == "extend":
            ks = {c["t"] for c in x["c"]}
            return mergeable(x) and (len(x["c"]) < 2 or (len(ks) == 1 and ks <= set(MERGEABLE)))
        return True
    return all_of(e, ok)


def inheritable(e):
    if e["t"] == "member":
        return not e["s"] or (not nil(e["c"][1]) and inheritable(e["c"][1]))
    if e["t"] == "enum":
        return not e["s"] or (not nil(e["c"][0]) and inheritable(e["c"][0]))
    if e["t"] == "extend":
        ks = {c["t"] for c in e["c"]}
        return e["s"] and len(e["c"]) > 0 and mergeable(e) and ks <= {"string", "number", "boolean", "array", "object"} and len(ks) == 1
    return True


def keyable(e):
    if e["t"] == "string":
        for x in ([attr(e, "samples")["c"][0]] if attr(e, "samples")["t"] == "array" and attr(e, "samples")["c"] else []) + \
                ([attr(e, "default")] if not nil(attr(e, "default")) else []):
            if x["t"] != "string" or not keyable(x):
                return False
        return True
    if e["t"] == "extend":
        return e["s"] and len(e["c"]) > 0 and {c["t"] for c in e["c"]} == {"string"} and all(keyable(c) for c in e["c"])
    return False


def dumpable(e):
    if e["t"] == "member":
        return e["s"] and not nil(e["c"][0]) and not nil(e["c"][1])
    if e["t"] == "holder":
        return e["s"] and not nil(e["c"][0])
    return "\n" not in e["v"]

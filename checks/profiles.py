"""What each check of the element library drives: the generator and the weights of the operations."""
from gen import Gen

OWN = {"lit": 3, "drop": 1, "clone": 2, "copy": 2, "move": 2, "assign": 3, "massign": 2, "selfassign": 1}
MUTATE = {"iset": 2, "isetc": 1, "ierase": 1, "iclaim": 1, "iclear": .5, "icopy": 2, "imove": 1, "iclone": 1, "iswap": 1,
          "push": 1, "pushs": 1, "ins": 1, "era": 1, "erange": .5, "clr": .5, "take": 1, "addm": 1, "dcopy": 2, "dmove": 1,
          "dswap": 1, "mval": 1, "mclaim": 1, "eclaim": 1, "setdata": 2, "setdef": 1, "name": 1}


class Rich(Gen):
    p_meta = 0.5
    p_attr = 0.5
    nil_kids = 0.05


class Info(Gen):
    p_meta = 0.8
    p_attr = 0.8
    depth = 1
    width = 2
    meta_keys = ["id", "x", "y", "description"]
    attr_keys = ["k", "z", "typeAttributes", "default"]


class Objects(Gen):
    kinds = ["object"] * 6 + ["member", "string", "number", "array", "option", "select", "ref"]
    depth = 2
    width = 4
    p_unset = 0.05
    p_meta = p_attr = 0.1
    p_name = 0.05
    list_wild = 0.25
    unset_key = 0.1
    string_keys = 0.85


class Lists(Gen):
    kinds = ["array", "object", "option", "extend", "select", "string", "number", "member"]
    depth = 2
    width = 4
    p_unset = 0.05
    p_meta = p_attr = 0.05


class Chains(Gen):
    kinds = ["object"] * 3 + ["string", "number", "boolean", "array", "enum", "ref", "null"]
    p_attr = 0.45
    p_meta = 0.45
    p_name = 0.1
    keys = ["a", "b", "c"]
    width = 4
    list_wild = 0.3
    unset_key = 0.03
    attr_keys = ["enumerations", "enumerations", "typeAttributes", "default", "samples", "k"]

    def object_extra(self):
        return ["select", "select", "ref", "ref", "string", "object"]

    def key(self, d):
        k = self.string(self.r.choice(self.keys))
        if self.coin(self.unset_key):
            k["s"], k["v"] = False, ""
        if self.coin(.06):
            return dict(self.arr([k, self.string()]), t="extend", n="extend")
        return k

    def entry(self, which, k, t, d):
        if k == "enumerations":
            return self.arr([self.small() if self.coin(.5) else self.string() for _ in range(self.r.randint(0, 3))])
        return Gen.entry(self, which, k, t, d)


class Types(Gen):
    """named types: elements bear the names A, B, C"""
    names = ["A", "B", "C", "D"]
    p_name = 0.3
    p_meta = 0.3
    p_attr = 0.25
    wild = 0.03
    depth = 3
    width = 3
    list_wild = 0.2
    unset_member = 0.0
    named_kinds = ["object", "array", "string", "number", "boolean", "enum", "ref", "extend"]
    kinds = ["object"] * 4 + ["array"] * 2 + ["string", "number", "boolean", "enum", "enum", "ref", "ref", "extend", "null"]
    meta_keys = ["id", "id", "description", "ref", "x"]
    attr_keys = ["enumerations", "typeAttributes", "default", "samples", "k"]

    def object_extra(self):
        return ["select", "ref", "ref", "string", "object"]


class Circular(Types):
    names = ["A", "B", "C"]
    p_name = 0.6
    p_meta = 0.15
    p_attr = 0.25
    attr_keys = ["k", "z", "typeAttributes", "default", "enumerations"]
    p_unset = 0.1
    kinds = ["object"] * 4 + ["array"] * 2 + ["ref"] * 2 + ["enum", "string"]
    list_wild = 0.35


class Sizes(Gen):
    p_attr = 0.6
    p_meta = 0.05
    p_name = 0.05
    p_unset = 0.45
    wild = 0.02
    attr_keys = ["typeAttributes"] * 4 + ["variable", "default", "samples", "enumerations", "enumerations", "resolved"]
    type_attrs = ["fixed", "fixedType", "nullable", "required", "optional"]
    kinds = ["object"] * 3 + ["array"] * 2 + ["boolean"] * 3 + ["enum"] * 3 + ["string", "number", "null", "ref", "select", "extend", "holder", "option"]
    list_wild = 0.3

    def entry(self, which, k, t, d):
        if which == "a" and k == "enumerations":
            return self.arr([self.el(1, self.r.choice(["string", "number", "boolean", "null", "enum"])) for _ in range(self.r.randint(0, 4))])
        return Gen.entry(self, which, k, t, d)

    def kids(self, t, d):
        if t == "extend":
            k = self.r.choice(["object", "boolean", "string", "array", "enum"])
            return [self.el(d - 1, k) for _ in range(self.r.randint(0, 2))]
        return Gen.kids(self, t, d)


class Values(Gen):
    p_attr = 0.75
    p_meta = 0.05
    p_unset = 0.6
    wild = 0.08
    attr_keys = ["samples"] * 3 + ["default"] * 3 + ["enumerations"] * 2 + ["typeAttributes"]
    type_attrs = ["nullable", "nullable", "fixed"]
    kinds = ["enum"] * 4 + ["string"] * 2 + ["number", "boolean", "array", "object", "null", "ref", "extend", "select"]
    nil_kids = 0.1
    info_depth = 2
    depth = 2
    width = 2


class Keys(Gen):
    kinds = ["object"] * 4 + ["string", "member", "member", "extend"]
    width = 4
    depth = 3
    p_unset = 0.15
    string_keys = 0.75
    keys = ["a", "b", "c", ""]
    p_attr = 0.3
    p_meta = 0.2
    list_wild = 0.2
    attr_keys = ["samples", "default", "typeAttributes"]
    meta_keys = ["description", "description", "x"]

    def key(self, d):
        r = self.r
        if self.coin(self.string_keys):
            return self.el(1, "string") if self.coin(.3) else Gen.key(self, d)
        if self.coin(.75):
            e = self.el(0, "extend")
            e["s"], e["v"] = True, ""
            e["c"] = [self.el(1, "string" if self.coin(.93) else "number") for _ in range(r.randint(0, 3))]
            return e
        return Gen.key(self, d)


class Dumps(Gen):
    p_attr = 0.4
    p_meta = 0.4
    unset_member = 0
    attr_keys = ["typeAttributes", "sourceMap", "sourceMap", "default", "k"]
    meta_keys = ["id", "description", "sourceMap"]


def mix(*ds, **kw):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    out.update(kw)
    return out


def scale(d, f):
    return {k: v * f for k, v in d.items()}


P = {
    "E01": dict(gen=Rich, weights=mix(OWN, MUTATE)),
    "E02": dict(gen=Rich, weights={"lit": 3, "flags": 12, "drop": .5, "iset": 1, "name": 1, "setdef": .3, "eq": 1, "push": 1, "mval": .5, "iclone": .7}),
    "E03": dict(gen=Rich, weights=mix({"lit": 1, "mutcopy": 8, "eq": 6, "deq": 4, "ieq": 4, "clone": 3, "copy": 1, "name": 1, "setdef": .5, "iset": 1,
                                       "push": 1, "iclone": .5, "drop": .5})),
    "E04": dict(gen=Info, weights={"lit": 1, "mutcopy": 8, "teq": 8, "clone": 2, "copy": 1, "iset": 1, "ierase": 1, "name": 1, "drop": .5, "setdef": .5}),
    "E05": dict(gen=Info, weights={"lit": 1.5, "iset": 4, "isetc": 2, "ierase": 2, "ieraseat": 1, "iclaim": 2, "iclaimat": 1, "iclear": .3, "ifind": 4,
                                   "icopy": 2, "imove": 1, "iclone": .7, "iswap": 1, "ieq": 1, "drop": .5, "clone": 1}),
    "E06": dict(gen=Lists, weights={"lit": 1.5, "push": 4, "pushs": 2, "ins": 4, "era": 3, "erange": 2, "clr": .4, "lst": 3, "take": 2, "dcopy": 1, "dmove": 1,
                                    "dswap": 1, "drop": .3, "addm": 1, "clone": 1}),
    "E07": dict(gen=Objects, weights={"lit": 1.5, "push": 5, "pushs": 2, "addm": 4, "find": 5, "ins": 1, "era": 1, "take": 1, "mval": .5, "drop": .3, "lst": .5,
                                      "dcopy": .5, "bykey": 0.0001, "clone": .5, "setdata": .5}),
    "E08": dict(gen=Gen, weights={"mk": 8, "setdef": 4, "setdata": 4, "name": 4, "reserved": 4, "lit": 2, "clr": 1, "era": 1, "copy": 1, "mclaim": 1, "eclaim": 1,
                                  "drop": .3, "assign": 1, "dmove": 1, "move": 1}),
    "E09": dict(gen=Chains, weights={"litext": 5, "merge": 6, "drop": 1, "lit": .3, "eq": .5, "iset": .7, "push": .7}),
    "E10": dict(gen=Types, weights={"litdef": 4, "radd": 5, "rfind": 4, "rremove": 2, "rclear": .25, "drop": .2, "iset": 1, "ierase": .3, "clone": 1}),
    "E11": dict(gen=Circular, weights={"litdef": 4, "radd": 4, "rroot": 7, "rremove": 1, "rclear": .1, "drop": .3}),
    "E12": dict(gen=Types, weights={"litdef": 2.5, "radd": 2.5, "lit": 2, "expand": 6, "drop": 1, "rremove": .3, "expandable": .5, "push": .5, "iset": .5}),
    "E13": dict(gen=Circular, weights={"litdef": 2.5, "radd": 2.5, "lit": 2, "expand": 6, "drop": 1, "rremove": .4}),
    "E14": dict(gen=Types, weights={"lit": 4, "expandable": 8, "name": 2, "expand": 3, "push": 1, "iset": 1, "drop": .5, "litdef": 1, "radd": 1, "mval": 1}),
    "E15": dict(gen=Gen, weights={"lit": 3, "visit": 8, "mk": 2, "name": 2, "drop": .3}),
    "E16": dict(gen=Rich, weights={"lit": 3, "walk": 8, "push": 1, "era": .5, "name": 2, "mclaim": .7, "eclaim": .7, "drop": .3}),
    "E17": dict(gen=Sizes, weights={"lit": 4, "size": 8, "card": 3, "uset": 1, "push": .5, "drop": .5}),
    "E18": dict(gen=Values, weights={"lit": 4, "value": 8, "uvalue": 5, "inherits": 3, "uset": 1, "setdef": .3, "eclaim": .5, "drop": .5, "iset": 1}),
    "E19": dict(gen=Sizes, weights={"lit": 3, "attrs": 6, "uset": 3, "appinfo": 5, "iset": 1, "setdef": .5, "inherits": 3, "drop": .5, "ierase": .5}),
    "E20": dict(gen=Keys, weights={"lit": 4, "bykey": 6, "keystr": 6, "rkey": 2, "cmp": 3, "descr": 4, "find": 1, "push": 1, "iset": 1, "drop": .5, "mval": .5}),
    "E21": dict(gen=Dumps, weights={"lit": 4, "dump": 8, "iset": 1, "push": 1, "name": 1, "setdef": .5, "drop": .5}),
}
for _p in P.values():
    _p.setdefault("quick", (70, 40))
    _p.setdefault("thorough", (1500, 60))

# the same for spec/Tools.tla
T = {
    "S01": dict(weights={"chars": 5, "anychars": 3, "index": 2}),
    "S02": dict(weights={"rset": 2, "rappend": 3, "rmap": 4}),
    "S03": dict(weights={"lines": 1, "pos": 5, "anypos": 2}),
    "S04": dict(weights={"mnew": 1.5, "mcopy": 2, "massign": 4, "mtype": 1, "mtext": 1, "mdata": 1, "mmap": 1.5, "mparent": 2, "mask": 2, "mpush": 5,
                         "mpushcopy": 2, "mera": 1}),
    "U01": dict(weights={"decode": 5, "encode": 1}),
    "M01": dict(weights={"media": 1}),
    "M02": dict(weights={"media": 1}),
    "R01": dict(weights={"report": 3, "treport": 1}),
    "R02": dict(weights={"radd": 3, "treport": 2, "warn": 3}),
    "O01": dict(weights={"opt": 5, "noopt": 1}),
}
for _p in T.values():
    _p.setdefault("quick", (60, 40))
    _p.setdefault("thorough", (800, 60))

# the same for spec/Values.tla
V = {
    "J01": dict(weights={"json": 1}),
    "J02": dict(weights={"yaml": 1}),
    "J03": dict(weights={"vlit": 3, "vcopy": 1, "vassign": 2, "vmove": 1, "vput": 5, "vitem": 5, "vfind": 3, "veq": 5}),
    "J04": dict(weights={"body": 1}),
    "J05": dict(weights={"schema": 1}),
    "J06": dict(weights={"tree": 1}),
}
for _p in V.values():
    _p.setdefault("quick", (60, 40))
    _p.setdefault("thorough", (800, 60))

# the same for spec/Blue.tla: how likely is what in a document
B = {
    "P01": dict(weights={"group": .6, "big": 1, "assets": .15, "params": .15, "meta": .5, "typo": .15, "desc": .5}),
    "P02": dict(weights={"group": .1, "big": 0, "assets": .25, "params": .05, "meta": 0}),
    "P03": dict(weights={"group": .05, "big": 0, "assets": .9, "params": .1, "meta": 0, "desc": .4}),
    "P04": dict(weights={"group": .2, "model": .9, "refs": .8, "assets": .3, "params": .15, "meta": 0}),
    "P05": dict(weights={"group": .05, "big": 0, "params": .9, "assets": .1, "meta": 0}),
    "P06": dict(weights={"junk": .4, "typo": .2, "rest": .25}),
    "P07": dict(weights={"maps": 1, "mson": .5, "clean": .6}),
    "P09": dict(weights={"mson": 1, "group": .1, "big": 0, "assets": .7, "params": .05, "meta": 0, "desc": .1, "junk": 0, "headers": .05, "model": .05, "refs": .05, "maps": 0, "rest": 0, "typo": 0, "late": 0, "clean": .6}),
    "P14": dict(weights={"mson": 1, "group": .1, "big": 0, "assets": .2, "params": .02, "meta": 0, "desc": .05, "junk": 0, "headers": .1, "model": .1, "refs": .03, "maps": 0, "rest": 0, "typo": 0, "late": 0,
                         "clean": .9, "media": .85, "json": .85, "defs": 4, "sec": .4, "attr": .35}),
}
for _p in B.values():
    _p.setdefault("quick", (8, 40))
    _p.setdefault("thorough", (150, 60))

# the same for spec/Calls.tla
C = {
    "P11": dict(weights={}, reads=True),
    "P12": dict(weights={"popts": 3, "sopts": 4, "read": 6, "check": 3, "readto": 3, "write": 5, "free": 2, "look": 2, "texts": 3}),
}
for _p in C.values():
    _p.setdefault("quick", (12, 40))
    _p.setdefault("thorough", (250, 60))

# the same for spec/Grammar.tla
G = {
    "P08": dict(weights={"sign": 1}),
    "P10": dict(weights={"uri": 1}),
    "P13": dict(weights={"media": 1}),
}
for _p in G.values():
    _p.setdefault("quick", (60, 60))
    _p.setdefault("thorough", (800, 80))

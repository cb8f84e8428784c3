"""Texts and histories of calls for spec/Calls.tla."""
import random

import bluegen

WORDS = ["id", "name", "a", "b", "Type", "User", "Note", "x y", "é", "日本", "😀", "foo_bar", "123", "4.5", "true", "null", "", "A-B", "`q`", "*m*", "[x]", "{", "}", "(", ")", "\\", "\"", "&amp;"]
TYPES = ["string", "number", "boolean", "array", "object", "enum", "array[string]", "array[User]", "enum[string]", "User", "Type", "Nope", "required", "optional", "fixed", "fixed-type", "nullable", "default",
         "sample", "array[array]", "object[User]", "enum[Note]", "array[number, string]", "Note", "`A B`", "*", "string, required", "number, optional, default", "boolean, fixed", "User, nullable", "array[string], fixed",
         "array[User, Type], fixed-type", "enum, default", "Type, sample", ""]
SECTIONS = ["Attributes", "Attribute", "Properties", "Items", "Members", "One Of", "One of", "Include User", "Include Type", "Include Nope", "Sample", "Sample: 1", "Default", "Default: a", "Sample: `x`", "Values", "Headers", "Body", "Schema",
            "Parameters", "Relation: next", "Model", "Request", "Response 200", "Response", "Response 204 (application/json)", "Request A (application/json)", "Request (text/plain)", "A Model (application/xml)", "Response 404",
            "[A][]", "[Nope][]", "Attributes (User)", "Attributes (array[User])", "Attributes (enum)", "Attributes (Type, fixed)", "Attributes (string)", "Attributes (object)", "Attributes (array)"]
HEADERS = ["# A", "# Group G", "## A [/a/{id}]", "## /b", "# POST /c", "### GET", "### List [GET]", "### Save [PUT /a/{id}{?x,y*}]", "# Data Structures", "## User (object)", "## Type (User)", "## Note (enum)", "## A Model (array)",
           "## Note (array[Type])", "## User", "## T (Nope)", "## U (T)", "## string (object)", "### Properties", "### Items", "### Sample", "### Members", "### One Of", "### Default", "## C [/{+x}{#y}{/z}]", "## D [/{]", "## E [/a b]",
           "### F [GET noslash]", "A\n===", "B\n---", "# `Group` x", "#", "##", "####### x", "# Group", "## []", "# Attributes", "## Resource [/x]{y}", "# HOST", "## (object)", "# Data Structures (x)"]
LINES = ["text", "*emph*", "---", "> quote", "<div>html</div>", "```", "~~~", "{ \"a\": 1 }", "X-H: 1", "Accept: text/html", "HOST: http://x.org", "FORMAT: 1A", "[A][]", "1. one", "* star", "- dash", "+", "-", "key: value", ": x", "x:",
         "Content-Type: application/json", "&nbsp;", "<!-- c -->", "[ref]: http://x", "<pre>", "</pre>", "!", "\\+ no", "+ + x", "- - - y", "* * *", "===", "::: x", "```json", "a\\", "é: ü", "😀"]


class Texts:
    def __init__(self, r):
        self.r = r
        self.blue = bluegen.Ops(random.Random(r.random()), {"junk": .3, "typo": .2, "rest": .3, "params": .5, "assets": .5, "model": .4, "refs": .4, "group": .3, "meta": .3})

    def attr(self):
        """a member line of a data structure"""
        r = self.r
        n = r.choice(WORDS)
        if r.random() < .15:
            return r.choice(SECTIONS)
        v = "" if r.random() < .4 else ": " + r.choice(WORDS + ["1, 2, 3", "a, b", "*x, y*", "`a, b`", "x, *, y"])
        t = "" if r.random() < .35 else " (" + ", ".join(r.choice(TYPES) for _ in range(r.choice([1, 1, 2, 3]))) + ")"
        d = "" if r.random() < .7 else " - " + r.choice(WORDS)
        return r.choice([n, n, n, "*" + n + "*", "`" + n + "`", "*" + n + " (User)*"]) + v + t + d

    def mson(self):
        """sections with attributes and data structures, more or less in order"""
        r = self.r
        out = []
        if r.random() < .3:
            out += ["# A", ""]
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < .5:
                out += ["# Data Structures", ""]
                for _ in range(r.choice([1, 2, 3])):
                    out += [r.choice([h for h in HEADERS if "(" in h or h == "## User"]), ""]
                    out += self.items(0, r.choice([0, 1, 2, 4]))
                    if r.random() < .3:
                        out += ["", r.choice(["### Properties", "### Items", "### Sample", "### Members", "### One Of", "### Default"]), ""] + self.items(0, 2)
                    out += [""]
            else:
                out += ["# A [/a/{id}]", ""]
                if r.random() < .4:
                    out += ["+ Attributes" + r.choice(["", " (User)", " (array[User])", " (enum)", " (Type, fixed)"])] + self.items(1, r.choice([0, 1, 3])) + [""]
                out += ["## GET", ""]
                if r.random() < .4:
                    out += ["+ Attributes" + r.choice(["", " (User)"])] + self.items(1, r.choice([0, 1, 3])) + [""]
                if r.random() < .3:
                    out += ["+ Parameters"] + self.items(1, r.choice([1, 2])) + [""]
                for _ in range(r.choice([1, 1, 2])):
                    out += ["+ " + r.choice(["Response 200 (application/json)", "Request (application/json)", "Response 200", "Request A (application/x-www-form-urlencoded)"]), "", "    + Attributes" + r.choice(["", " (User)", " (array[Type])", " (A)", " (enum[string])"])]
                    out += self.items(2, r.choice([0, 1, 2, 4])) + [""]
        return out

    def items(self, depth, n):
        out = []
        for _ in range(n):
            out.append("    " * depth + self.r.choice("++++-*") + " " + self.attr())
            if self.r.random() < .35 and depth < 5:
                out += self.items(depth + 1, self.r.choice([1, 1, 2]))
            if self.r.random() < .1:
                out += ["", "    " * (depth + 1) + self.r.choice(LINES), ""]
        return out

    def soup(self):
        r = self.r
        out = []
        for _ in range(r.randint(0, 12)):
            k = r.random()
            if k < .3:
                out += r.choice(HEADERS).split("\n") + [""]
            elif k < .55:
                out.append(" " * r.choice([0, 0, 4, 4, 8, 1, 2, 3, 12]) + r.choice("+-*") + " " + r.choice(SECTIONS))
            elif k < .75:
                out.append(" " * r.choice([0, 4, 8, 8, 12, 2]) + r.choice(LINES))
            elif k < .9:
                out += self.items(r.choice([0, 1, 2]), 1)
            else:
                out.append("")
        return out

    def mutate(self, ls):
        r = self.r
        ls = list(ls)
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            if not ls:
                break
            i = r.randrange(len(ls))
            k = r.randrange(8)
            if k == 0:
                del ls[i]
            elif k == 1:
                ls.insert(i, ls[r.randrange(len(ls))])
            elif k == 2:
                ls[i] = "    " + ls[i]
            elif k == 3:
                ls[i] = ls[i].lstrip(" ")
            elif k == 4:
                ls.insert(i, r.choice(LINES))
            elif k == 5:
                s = ls[i]
                j = r.randint(0, len(s))
                ls[i] = s[:j] + r.choice("()[]{}`*:,.-+#/ \\\"<&é") + s[j:]
            elif k == 6:
                ls.insert(i, "")
            else:
                j = r.randrange(len(ls))
                ls[i], ls[j] = ls[j], ls[i]
        return ls

    def text(self):
        r = self.r
        k = r.random()
        if k < .3:
            ls = self.blue.draw(None)["text"].split("\n")
        elif k < .65:
            ls = self.mson()
        else:
            ls = self.soup()
        t = "\n".join(self.mutate(ls))
        if r.random() < .1:
            t = t[:r.randint(0, len(t))]
        if r.random() < .02:
            t = t.replace(" ", "\t", 1)
        if r.random() < .02:
            t = t.replace("\n", "\r\n", 1)
        return t if r.random() < .2 else t + "\n"


class Ops:
    """histories of calls: few texts, read again and again"""

    def __init__(self, r, weights):
        self.r = r
        self.w = weights
        self.g = Texts(r)
        self.new()

    def new(self):
        n = self.w.get("texts", 3)
        self.pool = [self.g.text() for _ in range(n)]
        self.po, self.so = [False, False], [False, False]
        self.step = 0

    def draw(self, st):
        if st is not None and st.get("res") == {"leak": 0}:
            self.new()
        r = self.r
        w = {k: v for k, v in self.w.items() if k != "texts"}
        op = r.choices(list(w), list(w.values()))[0]
        opts = r.choice([0] + [i + 1 for i in (0, 1) if self.po[i]])
        sopts = r.choice([0] + [i + 1 for i in (0, 1) if self.so[i]])
        t = r.choice(self.pool)
        null = r.random() < .02
        if op in ("popts", "sopts"):
            on = self.po if op == "popts" else self.so
            i = r.randrange(2)
            act = r.choice(["init", "free"] + (["name", "bodies", "schemas"] * 2 if op == "popts" else ["maps", "maps", "json", "yaml", "json"])) if on[i] else "init"
            on[i] = act != "free"
            return dict(op=op, slot=i + 1, act=act)
        if op in ("read", "check"):
            return dict(op=op, text=t, null=null, opts=opts, out=r.choice([0, 1, 1, 2, 2, 3, 3]), sound=True)
        if op == "readto":
            return dict(op=op, text=t, null=null, opts=opts, sopts=sopts, want=r.random() < .9)
        if op == "write":
            return dict(op=op, h=r.choice([0, 1, 1, 2, 2, 3, 3]), sopts=sopts)
        return dict(op=op, h=r.choice([0, 1, 2, 3]))


class Reads:
    """texts, each read with some options and again"""

    def __init__(self, r, weights):
        self.r = r
        self.g = Texts(r)
        self.queue = []

    def draw(self, st):
        if st is not None and st.get("res") == {"leak": 0}:
            self.queue = []
        if not self.queue:
            t = self.g.text()
            q = [dict(op="read", text=t, null=False, opts=0, out=1, sound=True)]
            for act in self.r.sample(["name", "bodies", "schemas"], self.r.choice([0, 1, 2])):
                q += [dict(op="popts", slot=1, act="init"), dict(op="popts", slot=1, act=act), dict(op="read", text=t, null=False, opts=1, out=2, sound=True)]
            q.append(dict(op="read", text=t, null=False, opts=0, out=3, sound=True))
            self.queue = q
        return self.queue.pop(0)

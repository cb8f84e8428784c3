"""Random operations of spec/Tools.tla."""

CHARS = [[97], [98], [32], [10], [10], [35], [13], [0], [0xC2, 0x80], [0xC3, 0xA9], [0xDF, 0xBF], [0xE0, 0xA0, 0x80], [0xE2, 0x82, 0xAC], [0xED, 0x9F, 0xBF],
         [0xEE, 0x80, 0x80], [0xEF, 0xBB, 0xBF], [0xF0, 0x90, 0x80, 0x80], [0xF0, 0x9F, 0x98, 0x80], [0xF4, 0x8F, 0xBF, 0xBF]]
EDGES = [0x00, 0x0A, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4,
         0xF5, 0xF7, 0xF8, 0xFE, 0xFF]
TSPECIAL = "()<>@,;:\\\"/[]?= \t\r\n"


def octets(s):
    return list(s.encode("latin-1"))


class Ops:
    def __init__(self, r, weights):
        self.r = r
        self.ops = list(weights)
        self.weights = [weights[o] for o in self.ops]

    def coin(self, p):
        return self.r.random() < p

    # ---- documents
    def doc(self, n=40):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 12, n])
        kind = r.random()
        pool = CHARS if kind < .6 else CHARS[:6] + [[10]] * 4 if kind < .8 else CHARS[8:]
        return [b for _ in range(r.randint(0, n)) for b in r.choice(pool)]

    def wild(self):
        r = self.r
        if self.coin(.4):
            d = self.doc(12)
            for _ in range(r.randint(0, 3)):
                if d:
                    i = r.randrange(len(d))
                    c = r.random()
                    if c < .4:
                        d[i] = r.choice(EDGES)
                    elif c < .7:
                        del d[i]
                    else:
                        d = d[:i]
            return d
        return [r.choice(EDGES) if self.coin(.7) else r.randrange(256) for _ in range(r.randint(0, 9))]

    def boundaries(self, d):
        return [i for i in range(len(d)) if not 0x80 <= d[i] < 0xC0] + [len(d)]

    def within(self, d, beyond=.15):
        """a range whose ends are at characters"""
        r = self.r
        b = self.boundaries(d)
        i = r.choice(b)
        if self.coin(beyond):
            if self.coin(.3):
                i = len(d) + r.randint(0, 3)
            return [i, max(len(d) - i, 0) + r.randint(0, 3)]
        j = r.choice([x for x in b if x >= i])
        return [i, j - i]

    def ranges(self, top=12, far=False):
        r = self.r
        out, at = [], r.randint(0, 3)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            n = r.randint(0, 4)
            out.append([at, n] if self.coin(.85) else [r.randint(0, top), r.randint(0, 5)])
            at += n + r.choice([0, 0, 1, 2])
        if far and out and self.coin(.08):  # behind any document, counted down from 2^64
            r.choice(out)[r.randint(0, 1)] = -r.randint(1, 6)
        return out

    # ---- markdown trees
    def path(self, n, deep=.5):
        p = []
        while n["kids"] and self.coin(deep):
            i = self.r.randint(1, len(n["kids"]))
            p.append(i)
            n = n["kids"][i - 1]
        return p

    @staticmethod
    def at(n, p):
        for i in p:
            n = n["kids"][i - 1]
        return n

    def size(self, n):
        return 1 + sum(self.size(k) for k in n["kids"])

    def text(self):
        return self.r.choice(["", "a", "b", "# Head", "é", "two\nlines", "x" * 40, "tab\t", "\u20ac"])

    def node(self, d=1):
        r = self.r
        return dict(type=r.randint(-1, 10), text=self.text(), data=r.choice([0, 0, 1, 2, -1, 7]), map=self.ranges(), parent=r.choice([0, 0, 1, 2, 3]),
                    kids=[self.node(d - 1) for _ in range(r.choice([0, 0, 1, 2]))] if d else [])

    def made(self, st):
        return [i + 1 for i, n in enumerate(st["nodes"]) if n]

    def dest(self, st):
        m = self.made(st)
        if not m:
            return None
        d = self.r.choice(m)
        return d, self.path(st["nodes"][d - 1][0])

    # ---- media types
    def word(self):
        r = self.r
        c = r.random()
        if c < .5:
            w = r.choice(["application", "json", "schema", "text", "vnd.api", "xml", "hal", "jso", "jsonp", "application2", "j"])
            w = "".join(x.upper() if self.coin(.2) else x for x in w)
            return octets(w)
        if c < .6:
            return []
        return [r.choice([45, 46, 48, 65, 90, 91, 64, 96, 97, 122, 123, 74, 106, 0xCA, 0xEA, 0xDF]) for _ in range(r.randint(1, 5))]

    def value(self):
        r = self.r
        if self.coin(.3):
            return octets(r.choice(["utf-8", "", "a b", 'q"q', "b\\s", "r\r\n", "\\r", "1.0", "\x7f", "\x80", "\xe9", "x=y", "[1]", "a'b", "{x}"]))
        return [r.choice(octets(TSPECIAL) + [0, 1, 8, 9, 11, 12, 27, 31, 33, 39, 46, 97, 114, 126, 127, 128, 160, 255]) if self.coin(.5) else r.randrange(33, 127)
                for _ in range(r.randint(0, 6))]

    def media(self):
        r = self.r
        if self.coin(.5):
            t = octets(r.choice(["application", "Application", "APPLICATION", "text", "applicatio"]))
            s = octets(r.choice(["json", "JSON", "schema", "Schema", "vnd.x", "xml", "jsoN"]))
            x = octets(r.choice(["", "", "json", "Json", "xml", "schema"]))
        else:
            t, s, x = self.word(), self.word(), self.word() if self.coin(.5) else []
        return dict(type=t, subtype=s, suffix=x, params=[[self.word() if self.coin(.9) else [], self.value()] for _ in range(r.choice([0, 0, 1, 1, 2, 3]))])

    # ---- reports
    def message(self):
        return self.r.choice(["", "bad", "no: good", "(x)", "ends with;", " lead", "a b"])

    def lines_ranges(self, chars):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            i = r.randint(0, max(chars - 1, 0))
            out.append([i, r.randint(1, max(chars - i, 1))])
        return out

    @staticmethod
    def el(t, v="", c=(), n=None, m=(), a=(), s=True):
        return dict(t=t, n=t if n is None else n, m=[dict(k=k, el=e) for k, e in m], a=[dict(k=k, el=e) for k, e in a], s=s, v=v, c=list(c))

    def num(self, i):
        return self.el("number", str(i))

    def annotation(self, chars):
        r = self.r
        m, a = [], []
        if self.coin(.8):
            cs = [self.el("string", r.choice(["error", "warning", "x"])) for _ in range(1 if self.coin(.85) else r.choice([0, 2]))]
            if self.coin(.05):
                cs = [self.num(1)]
            m.append(("classes", self.el("array", c=cs)))
        if self.coin(.2):
            m.append(("title", self.el("string", "t")))
        if self.coin(.8):
            a.append(("code", self.num(r.randint(0, 13)) if self.coin(.9) else self.el("string", "4")))
        if self.coin(.85):
            rs = self.lines_ranges(chars)
            sm = self.el("array", n="sourceMap", c=[self.el("array", c=[self.num(i), self.num(n)]) for i, n in rs])
            a.append(("sourceMap", self.el("array", c=[sm] if self.coin(.9) else r.choice([[], [sm, sm], [self.num(1)]]))))
        r.shuffle(a)
        t = "string" if self.coin(.9) else "number"
        return self.el(t, self.message() if t == "string" else "5", n="annotation" if self.coin(.85) else r.choice(["string", "Annotation", "annotations", ""]),
                       m=m, a=a)

    def result(self, chars):
        r = self.r
        c = []
        for _ in range(r.randint(0, 4)):
            if self.coin(.75):
                c.append(self.annotation(chars))
            else:
                c.append(self.el("array", n=r.choice(["category", "annotation"]), c=[self.annotation(chars) for _ in range(r.randint(0, 2))]))
        return self.el("array", n="parseResult", c=c)

    def source_annotation(self, chars):
        return dict(message=self.message(), code=self.r.choice([0, 1, 2, 3, 4, 8, 10, 13]), location=self.lines_ranges(chars))

    def report(self, chars):
        return dict(error=self.source_annotation(chars), warnings=[self.source_annotation(chars) for _ in range(self.r.choice([0, 1, 1, 2, 3]))])

    @staticmethod
    def chars(d):
        return sum(1 for b in d if not 0x80 <= b < 0xC0)

    # ---- drawing
    def draw(self, st):
        while True:
            o = getattr(self, "op_" + self.r.choices(self.ops, self.weights)[0])(st["st"])
            if o:
                return o

    def op_index(self, st):
        return dict(op="index", doc=self.doc(), n=self.r.choice([0, 0, 3, 50]))

    def op_chars(self, st):
        d = self.doc()
        return dict(op="chars", doc=d, rs=[self.within(d) for _ in range(self.r.randint(0, 5))])

    def op_anychars(self, st):
        r = self.r
        return dict(op="anychars", doc=self.wild(), rs=[[r.randint(0, 14), r.choice([0, 1, 2, 5, 20, -1])] for _ in range(r.randint(0, 4))])

    def op_rset(self, st):
        return dict(op="rset", d=self.r.randint(1, 2), rs=self.ranges(far=True))

    def op_rappend(self, st):
        r = self.r
        d = r.randint(1, 2)
        if len(st["sets"][0]) + len(st["sets"][1]) > 12:
            return self.op_rset(st)
        return dict(op="rappend", d=d, s=3 - d)

    def op_rmap(self, st):
        return dict(op="rmap", s=self.r.randint(1, 2), doc=self.doc() if self.coin(.5) else list(range(65, 65 + self.r.randint(0, 16))))

    def op_lines(self, st):
        return dict(op="lines", doc=self.doc() if self.coin(.85) else self.wild())

    def op_pos(self, st):
        r = self.r
        d = self.doc()
        n = self.chars(d)
        if n == 0:
            return None
        i = r.randrange(n)
        return dict(op="pos", doc=d, loc=i, len=r.randint(1, n - i) if self.coin(.8) else n - i)

    def op_anypos(self, st):
        r = self.r
        return dict(op="anypos", doc=self.wild(), loc=r.choice([0, 1, 3, 9, 30]), len=r.choice([0, 0, 1, 4, 50]))

    def op_mnew(self, st):
        r = self.r
        return dict(op="mnew", d=r.randint(1, 3), full=self.coin(.8), type=r.randint(-1, 10), text=self.text(), data=r.choice([0, 1, 2, -3]), parent=r.choice([0, 0, 1, 2, 3]))

    def op_mcopy(self, st):
        m = self.made(st)
        if not m:
            return None
        s = self.r.choice(m)
        ds = [d for d in (1, 2, 3) if d != s]
        return dict(op="mcopy", d=self.r.choice(ds), s=s, q=self.path(st["nodes"][s - 1][0]))

    def op_massign(self, st):
        x, y = self.dest(st), self.dest(st)
        if not x:
            return None
        (d, p), (s, q) = x, y
        if self.size(st["nodes"][d - 1][0]) + self.size(st["nodes"][s - 1][0]) > 30:
            return None
        return dict(op="massign", d=d, p=p, s=s, q=q)

    def edit(self, st, op, **kw):
        x = self.dest(st)
        return x and dict(op=op, d=x[0], p=x[1], **kw)

    def op_mtype(self, st):
        return self.edit(st, "mtype", x=self.r.randint(-1, 10))

    def op_mtext(self, st):
        return self.edit(st, "mtext", x=self.text())

    def op_mdata(self, st):
        return self.edit(st, "mdata", x=self.r.randint(-2, 9))

    def op_mmap(self, st):
        return self.edit(st, "mmap", rs=self.ranges())

    def op_mparent(self, st):
        return self.edit(st, "mparent", parent=self.r.randint(0, 3))

    def op_mask(self, st):
        return self.edit(st, "mask")

    def op_mpush(self, st):
        x = self.dest(st)
        if not x or self.size(st["nodes"][x[0] - 1][0]) > 20:
            return None
        return dict(op="mpush", d=x[0], p=x[1], el=self.node())

    def op_mpushcopy(self, st):
        x, y = self.dest(st), self.dest(st)
        if not x:
            return None
        (d, p), (s, q) = x, y
        if d == s or self.size(st["nodes"][d - 1][0]) + self.size(st["nodes"][s - 1][0]) > 30:
            return None
        return dict(op="mpushcopy", d=d, p=p, s=s, q=q)

    def op_mera(self, st):
        x = self.dest(st)
        if not x:
            return None
        k = self.at(st["nodes"][x[0] - 1][0], x[1])["kids"]
        return dict(op="mera", d=x[0], p=x[1], i=self.r.randint(1, len(k))) if k else None

    def op_decode(self, st):
        return dict(op="decode", docs=[self.wild() if self.coin(.8) else self.doc(12) for _ in range(8)])

    def op_encode(self, st):
        r = self.r
        tops = [0x80, 0x800, 0x10000, 0x110000]
        return dict(op="encode", cps=[r.randrange(r.choice(tops)) for _ in range(10)])

    def op_media(self, st):
        return dict(op="media", mt=self.media())

    def op_section(self, st):
        return dict(op="section", i=self.r.randint(0, 33))

    def op_report(self, st):
        d = self.doc(20)
        n = self.chars(d)
        lines = self.coin(.5) and n > 0
        return dict(op="report", el=self.result(n), doc=d, lines=lines, error=self.r.choice([0, 0, 1, 2]))

    def op_treport(self, st):
        d = self.doc(20)
        n = self.chars(d)
        return dict(op="treport", r=self.report(n), doc=d, lines=self.coin(.5) and n > 0)

    def op_radd(self, st):
        return dict(op="radd", r=self.report(9), s=self.report(9))

    def op_warn(self, st):
        r, o = self.r, self.report(9)
        ws = o["warnings"]
        for _ in range(r.randint(0, 5)):
            if ws:
                w = dict(r.choice(ws))
                x = r.random()
                if x < .2:
                    w["code"] = r.choice([3, 4])
                elif x < .4:
                    w["message"] += r.choice(["", "!"])
                elif x < .7:
                    w["location"] = [list(p) for p in w["location"]] + r.choice([[], [[1, 2]]])
                    if w["location"] and r.random() < .7:
                        w["location"][r.randrange(len(w["location"]))] = [r.randint(0, 2), r.randint(0, 2)]
                ws.insert(r.randint(0, len(ws)), w)
        return dict(op="warn", r=o)

    def op_opt(self, st):
        return dict(op="opt", i=self.r.randint(1, 5), b=self.coin(.5))

    def op_noopt(self, st):
        return dict(op="noopt")

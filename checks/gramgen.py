"""Random operations of spec/Grammar.tla."""

def octets(s):
    return list(s.encode("utf-8"))


class Ops:
    def __init__(self, r, weights):
        self.r = r
        self.ops = list(weights)
        self.weights = [weights[o] for o in self.ops]

    def coin(self, p):
        return self.r.random() < p

    def many(self, pool, n):
        return "".join(self.r.choice(pool) for _ in range(self.r.randint(0, n)))

    def mutated(self, s, pool):
        r = self.r
        s = list(s)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4])):
            i = r.randint(0, len(s))
            if s and self.coin(.4):
                del s[min(i, len(s) - 1)]
            else:
                s.insert(i, r.choice(pool))
        return "".join(s)

    # ---- URI templates
    VAR = ["a", "Z", "0", "_", "ab", "%41", "%e2", "id", "q"]
    ODD = ["%", "%4", "%zz", ".", "..", "-", " ", "{", "}", ",", ":", "*", "é", "\u20ac", "\U0001f600", "\ufdd0", "\ufffe", "\n", "\t", "\x01", "\x7f", "~", "[", "]", "'", "\"", "<", "^", "|", "\\",
           "`", "\u0080", "\u00a0", "\ud7ff", "\ue000", "\uffef", "\ufff0", "\U0001fffd", "\U0001fffe", "\U000e0001", "\U000e1000", "\U0010fffd", "\U0010ffff", "=", "+", "#", "/", ";", "?", "&", "!", "@"]
    LIT = ["a", "b", "1", "/", "/", "-", ".", "~", ":", "?", "=", "&", "#", "%20", "%C3%a9", "é", "\u20ac", "$", "(", ")", "+", ";", "@", "!", "_"]

    def name(self):
        n = self.many(self.VAR, 3) or "v"
        while self.coin(.2):
            n += "." + self.r.choice(self.VAR)
        return n

    def var(self):
        r = self.r
        return self.name() + (r.choice(["", "", "", "*", ":1", ":3", ":10", ":0", ":9999", ":10000", ":12345", ":", "**", ":a", "*:2"]))

    def expr(self):
        r = self.r
        return "{" + r.choice(["", "", "", "", "+", "#", "?", "&", "?", ".", "/", ";", "=", ",", "!", "@", "|"]) + ",".join(self.var() for _ in range(r.choice([1, 1, 1, 2, 3, 0]))) + "}"

    def uri(self):
        r = self.r
        x = r.choice(["", "", "", "/", "/", "http", "https", "ftp", "file", "http://", "https://a.b", "http:", "://", "httpsx"])
        for _ in range(r.randint(0, 4)):
            x += self.expr() if self.coin(.45) else self.many(self.LIT, 5)
        return {"op": "uri", "x": octets(self.mutated(x, self.ODD))}

    # ---- media types
    NAME = list("abzAZ019!#$&^_-.")

    def mname(self):
        r = self.r
        if self.coin(.02):
            return "a" * r.choice([126, 127, 128, 129])
        if self.coin(.5):
            return r.choice(["application", "json", "schema", "text", "plain", "vnd.api", "JSON", "Schema", "APPLICATION", "charset", "utf-8", "x"])
        return self.many(self.NAME, 6)

    def mvalue(self):
        r = self.r
        if self.coin(.5):
            return self.many(self.NAME + list("%'*+`|~"), 5)
        return '"' + self.many(["a", "b", " ", "\t", ";", "=", "\\\\", "\\\"", "\\a", "é", "/", "{", "}", "\\é", "1", "~"], 5) + '"'

    def media(self):
        r = self.r
        x = r.choice(["", "", "", " ", "\t "]) + self.mname() + "/" + self.mname()
        while self.coin(.3):
            x += "+" + self.mname()
        if self.coin(.6):
            x += r.choice(["", "", " ", "\t"]) + ";" + r.choice(["", " "])
            x += r.choice([";", "; ", " ", " ; ", "\t"]).join(self.mname() + "=" + self.mvalue() for _ in range(r.randint(0, 3)))
        if self.coin(.1):
            x += r.choice([" ", "\n", "\r\n", ";", " x"])
        return {"op": "media", "x": octets(self.mutated(x, list("a1;=/+\"\\ \té~*\x01\x7f,:(){}")))}

    # ---- signatures
    def sign(self):
        r = self.r
        bits = "abc"
        mark = r.choice("::::==-")
        before = r.choice(["-", "-", "-", "...", "+", ""]) if self.coin(.95) else "-a"
        pool = ["a", "b", "c", " ", "  ", ",", "(", ")", "`", "``", "*", "**", "_", "[", "]", mark, before, ":", "=", "-", "...", "é", "1", "\t", "\\"]
        if self.coin(.5):
            x = self.many(list(bits) + ["`a`", "*b*", "`x-y (1)`", " "], 4) + mark + ", ".join(self.many(list(bits) + ["`1,2`", " ", "[a]", "-1"], 3) for _ in range(r.randint(0, 3)))
            x += " (" + ", ".join(self.many(list(bits) + ["[a, b]", "`x`", "array[b]", "(y)", " "], 3) for _ in range(r.randint(0, 3))) + ")" + " " + before + " " + self.many(pool, 5)
            x = self.mutated(x, pool)
        else:
            x = self.many(pool, 14)
        if self.coin(.3):
            x += r.choice(["\n", "\r\n", "\nmore\nlines", "\n\n x "])
        return {"op": "sign", "x": octets(x), "tr": [self.coin(.6), self.coin(.6), self.coin(.7), self.coin(.8)], "mark": octets(mark), "before": octets(before)}

    def draw(self, st):
        return getattr(self, self.r.choices(self.ops, self.weights)[0])()

"""Grammars as trees: generation, text rendering, sample inputs. The trees go to TLC, the texts to the library."""
import json

QS = ["", "", "", "?", "*", "+"]
SPECIAL = set(" ~#^-|&+*?\"'()[]<>.;\t\r\n\\\0")
CLSSPECIAL = set(" #\\-[]\t\r\n\0")


def chr_(c, q=""):
    return {"k": "chr", "c": c if isinstance(c, int) else ord(c), "q": q}


def ref(n, q=""):
    return {"k": "ref", "n": n, "q": q}


def grp(e, q=""):
    return {"k": "grp", "e": e, "q": q}


def seq(es):
    return {"k": "seq", "es": es}


def alt(es):
    return {"k": "alt", "es": es}


def rule(n, b):
    return {"k": "rule", "n": n, "b": b}


# ------------------------------------------------------------------ rendering
class Render:
    """Text of a tree; rng picks between spellings of the same thing (None: the plainest)."""

    def __init__(self, rng=None, cref=0.3):
        self.rng = rng
        self.cref = cref

    def ch(self, *xs):
        return xs[0] if self.rng is None else self.rng.choice(xs)

    def sp(self):
        return self.ch("", "", " ", "  ", "\t")

    def char(self, c):
        s = chr(c)
        if s in "\t\r\n":
            return {"\t": "\\t", "\r": "\\r", "\n": "\\n"}[s]
        forms = []
        if s != "'":
            forms.append("'%s'" % s)
        if s != '"':
            forms.append('"%s"' % s)
        if s not in SPECIAL:
            forms.append(s)
        if s not in "rnt\n\r\0":
            forms.append("\\" + s)
        return self.ch(*forms)

    def clschar(self, c):
        s = chr(c)
        if s in "\t\r\n":
            return {"\t": "\\t", "\r": "\\r", "\n": "\\n"}[s]
        if s in CLSSPECIAL:
            return "\\" + s
        if s not in "rnt" and self.rng and self.rng.random() < 0.1:
            return "\\" + s
        return s

    def num(self, c):
        if c == 0:
            return "#0x0"
        return self.ch("#%d" % c, "#0x%x" % c, "#0X%X" % c, "#x%x" % c)

    def cls(self, rs):
        plain = all(a == b or not (set((chr(a), chr(b))) & CLSSPECIAL) for a, b in rs) and all(a < 0xd800 or a > 0xdfff for r in rs for a in r)
        if not plain or (self.rng and self.rng.random() < 0.2):
            return "[" + self.ch("", "").join(self.num(a) if a == b else self.num(a) + "-" + self.num(b) for a, b in rs) + "]"
        return "[" + "".join(self.clschar(a) if a == b else chr(a) + "-" + chr(b) for a, b in rs) + "]"

    def item(self, e):
        k = e["k"]
        if k == "chr":
            t = self.char(e["c"])
        elif k == "any":
            t = "."
        elif k == "spc":
            t = {9: "\\t", 10: "\\n", 13: "\\r"}[e["c"]]
        elif k == "cls":
            t = self.cls(e["r"])
        elif k == "ref":
            t = ("<:%s:>" if self.rng and self.rng.random() < self.cref else "<%s>") % e["n"]
        elif k == "grp":
            t = "(" + self.sp() + self.expr(e["e"]) + self.sp() + ")"
        else:
            raise ValueError(k)
        return t + (self.sp() if e["q"] else "") + e["q"]

    def elem(self, e):
        if e["k"] == "not":
            return "^" + self.sp() + self.elem(e["e"])
        if e["k"] == "seq":             # a quoted string
            s = "".join(chr(x["c"]) for x in e["es"])
            return ("'%s'" if "'" not in s else '"%s"') % s
        return ("~" if self.rng and self.rng.random() < 0.03 else "") + self.item(e)

    def exp(self, e):
        """a sequence"""
        if e["k"] != "seq":
            return self.elem(e)
        out = []
        es = e["es"]
        i = 0
        while i < len(es):
            # runs of plain characters may be written as one string
            j = i
            while j < len(es) and es[j]["k"] == "chr" and es[j]["q"] == "" and chr(es[j]["c"]) not in "'\n\r\t\0":
                j += 1
            if j - i >= 2 and self.rng and self.rng.random() < 0.5:
                out.append("'" + "".join(chr(x["c"]) for x in es[i:j]) + "'")
                i = j
            else:
                out.append(self.elem(es[i]))
                i += 1
        return self.ch(" ", " ", "  ", " \\\n ").join(out) if self.rng else " ".join(out)

    def minexp(self, e):
        if e["k"] != "min":
            return self.exp(e)
        return self.exp(e["l"]) + "".join(self.sp() + "-" + self.sp() + self.exp(r) for r in e["rs"])

    def expr(self, e):
        if e["k"] != "alt":
            return self.minexp(e)
        return "".join((self.ch(" | ", "|", " |\n ", "\n | ") if i else "") + self.minexp(b) for i, b in enumerate(e["es"]))

    def text(self, it):
        if it["k"] == "rule":
            return it["n"] + self.ch(" ", "", "\t") + "::=" + self.sp() + self.expr(it["b"])
        if it["k"] == "anon":
            return self.expr(it["b"])
        return it["n"]

    def grammar(self, items):
        out = []
        for it in items:
            t = self.text(it)
            if it["k"] == "anon":
                it["n"] = t
            end = self.ch("\n", "\n", "\n\n", "\r\n", "\n# note: 'x' ::= y\n") if self.rng else "\n"
            if it["k"] == "rule" and self.rng and self.rng.random() < 0.1:
                end = ";" + end
            out.append(t + end)
        return "".join(out)


# ------------------------------------------------------------------ analysis (same definitions as RpaPeg.tla)
def nullable(e):
    k = e["k"]
    if k == "seq":
        return all(nullable(x) for x in e["es"])
    if k in ("alt", "not"):
        return False
    if k == "min":
        return nullable(e["l"])
    if e["q"] in ("?", "*"):
        return True
    return k == "grp" and nullable(e["e"])


def leftrefs(e):
    k = e["k"]
    if k == "seq":
        r = set()
        for x in e["es"]:
            r |= leftrefs(x)
            if not nullable(x):
                break
        return r
    if k == "alt":
        return set().union(*[leftrefs(x) for x in e["es"]])
    if k == "min":
        return leftrefs(e["l"]).union(*[leftrefs(x) for x in e["rs"]])
    if k in ("not", "grp"):
        return leftrefs(e["e"])
    return {e["n"]} if k == "ref" else set()


def leftrec(items):
    L = {}
    for it in items:
        if it["k"] == "rule":
            L.setdefault(it["n"], set()).update(leftrefs(it["b"]))
    out = set()
    for n in L:
        seen, todo = set(), list(L[n])
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            todo += L.get(m, ())
        if n in seen:
            out.add(n)
    return out


def size(e):
    k = e["k"]
    if k in ("seq", "alt"):
        return 1 + sum(size(x) for x in e["es"])
    if k == "min":
        return 1 + size(e["l"]) + sum(size(x) for x in e["rs"])
    if k in ("not", "grp"):
        return 1 + size(e["e"])
    return 1


# ------------------------------------------------------------------ random trees
class Gen:
    def __init__(self, rng, alphabet="abc", names=("a", "b", "c"), neg=True, uni=False):
        self.rng = rng
        self.al = alphabet
        self.names = list(names)
        self.neg = neg

    def c(self):
        return ord(self.rng.choice(self.al))

    def q(self):
        return self.rng.choice(QS)

    def cls(self):
        rs = []
        for _ in range(self.rng.randint(1, 3)):
            a = self.c()
            b = self.c() if self.rng.random() < 0.4 else a
            rs.append([a, b])
        return rs

    def item(self, d):
        r = self.rng.random()
        q = self.q()
        if r < 0.40:
            return chr_(self.c(), q)
        if r < 0.47:
            return {"k": "any", "q": q}
        if r < 0.62:
            return {"k": "cls", "r": self.cls(), "q": q}
        if r < 0.80 and self.names:
            return ref(self.rng.choice(self.names), q)
        if d <= 0:
            return chr_(self.c(), q)
        return grp(self.expr(d - 1), q)

    def elem(self, d):
        if self.neg and self.rng.random() < 0.08:
            if self.rng.random() < 0.3:
                return {"k": "not", "e": seq([chr_(self.c()) for _ in range(2)])}
            return {"k": "not", "e": self.item(d)}
        return self.item(d)

    def exp(self, d):
        return seq([self.elem(d) for _ in range(self.rng.choice([1, 1, 2, 2, 3]))])

    def minexp(self, d):
        if self.neg and self.rng.random() < 0.12:
            return {"k": "min", "l": self.exp(d), "rs": [self.exp(d - 1) for _ in range(self.rng.choice([1, 1, 2]))]}
        return self.exp(d)

    def expr(self, d):
        if self.rng.random() < 0.35:
            return alt([self.minexp(d) for _ in range(self.rng.choice([2, 2, 3]))])
        return self.minexp(d)

    def grammar(self, nrules=None, anon=0.0, d=2, lr=False):
        while True:
            n = nrules or self.rng.randint(1, len(self.names))
            used = self.names[:n]
            sv = self.names
            self.names = used
            items = []
            order = list(used)
            self.rng.shuffle(order)
            for x in order:
                items.append(rule(x, self.expr(d)))
            if self.rng.random() < anon:
                items.append({"k": "anon", "n": "", "b": self.expr(d)})
            self.names = sv
            if lr or not leftrec(items):
                return items

    # ---------------------------------------------------------- inputs
    def derive(self, items, e, depth=0):
        """Some text the expression might well match (not guaranteed)."""
        R = self.rng
        k = e["k"]
        self.budget -= 1
        if depth > 14 or self.budget < 0:
            return ""
        if k == "seq":
            return "".join(self.derive(items, x, depth + 1) for x in e["es"])
        if k == "alt":
            return self.derive(items, R.choice(e["es"]), depth + 1)
        if k == "min":
            return self.derive(items, e["l"] if R.random() < 0.8 else R.choice(e["rs"]), depth + 1)
        if k == "not":
            return chr(self.c())
        n = {"": 1, "?": R.randint(0, 1), "*": R.choice([0, 1, 2]), "+": R.choice([1, 2])}[e["q"]]
        out = ""
        for _ in range(n):
            if k in ("chr", "spc"):
                out += chr(e["c"])
            elif k == "any":
                out += chr(self.c())
            elif k == "cls":
                a, b = sorted(R.choice(e["r"]))
                x = R.randint(a, b)
                out += chr(x if not 0xd800 <= x <= 0xdfff else a)
            elif k == "grp":
                out += self.derive(items, e["e"], depth + 1)
            elif k == "ref":
                c = [it for it in items if it["k"] == "rule" and it["n"] == e["n"]]
                if c:
                    out += self.derive(items, c[-1]["b"], depth + 1)
        return out

    def text(self, items, root, maxlen=9):
        R = self.rng
        self.budget = 60
        if R.random() < 0.7:
            s = self.derive(items, items[root]["b"])
        else:
            s = "".join(chr(self.c()) for _ in range(R.randint(0, maxlen)))
        r = R.random()
        if s and r < 0.2:
            i = R.randrange(len(s))
            s = s[:i] + chr(self.c()) + s[i + 1:]
        elif s and r < 0.3:
            i = R.randrange(len(s))
            s = s[:i] + s[i + 1:]
        elif r < 0.45:
            s += chr(self.c())
        elif r < 0.5:
            s = chr(self.c()) + s
        return s[:maxlen]


def key(items):
    return json.dumps(items, sort_keys=True)

"""How many evaluation steps the specification needs for a case (a filter for the generators, never an oracle)."""
import sys
sys.setrecursionlimit(20000)
from gen_rpa import leftrec


class TooMuch(Exception):
    pass


class Cost:
    def __init__(self, items, ic, limit):
        self.it = items
        self.ix = {}
        for k, it in enumerate(items):
            if it["k"] == "rule":
                self.ix[it["n"]] = k
        self.lr = leftrec(items)
        self.ic = ic
        self.left = limit

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise TooMuch()

    def ev(self, e, i, L):
        self.tick()
        k = e["k"]
        if k == "seq":
            n = 0
            for x in e["es"]:
                v = self.ev(x, i + n, L)
                if v < 0:
                    return v
                n += v
            return n
        if k == "alt":
            for x in e["es"]:
                v = self.ev(x, i, L)
                if v > 0:
                    return v
            return -1
        if k == "min":
            for x in e["rs"]:
                if self.ev(x, i, L) > 0:
                    return -1
            return self.ev(e["l"], i, L)
        if k == "not":
            v = self.ev(e["e"], i, L)
            return -1 if v >= 0 or i >= len(self.s) else 1
        q = e["q"]
        if q == "":
            return self.item(e, i, L)
        if q == "?":
            return max(0, self.item(e, i, L))
        n = 0
        while True:
            v = self.item(e, i + n, L)
            if v <= 0:
                break
            n += v
        return -1 if q == "+" and n == 0 else n

    def item(self, e, i, L):
        self.tick()
        k = e["k"]
        if k == "grp":
            return self.ev(e["e"], i, L)
        if k == "ref":
            return self.rule(self.ix[e["n"]], i, L)
        if i >= len(self.s):
            return -1
        c = self.s[i]
        same = lambda a: a == c or (self.ic and chr(a).lower() == chr(c).lower())
        if k == "chr" or k == "spc":
            return 1 if same(e["c"]) else -1
        if k == "any":
            return 1
        return 1 if any(min(r) <= c <= max(r) or (self.ic and any(min(r) <= ord(x) <= max(r) for x in (chr(c).lower() + chr(c).upper()))) for r in e["r"]) else -1

    def rule(self, j, i, L):
        self.tick()
        it = self.it[j]
        for (a, b, seed) in L:
            if (a, b) == (j, i):
                return seed
        if it["n"] in self.lr and it["k"] == "rule":
            seed = -1
            while True:
                v = self.ev(it["b"], i, L + [(j, i, seed)])
                v = v if v > 0 else -1
                if v > seed:
                    seed = v
                else:
                    return seed
        v = self.ev(it["b"], i, L)
        return v if v > 0 else -1


def cost(items, root, chars, ic=False, limit=4000, scan=False):
    c = Cost(items, ic, limit)
    try:
        c.s = list(chars)
        for k in range(len(chars) if scan else 1):
            c.s = list(chars[k:])
            c.rule(root, 0, [])
    except (TooMuch, RecursionError, KeyError):
        return limit + 1
    return limit - c.left

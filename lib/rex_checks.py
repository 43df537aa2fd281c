"""Checks of the regular expression engine and the scanner generator (X01..X05)."""
import json
from vlib import *
import os, glob, subprocess
from concurrent.futures import ThreadPoolExecutor
from rlib_checks import judge_lines

ALPHAS = [[97, 98], [97, 98, 99], list(range(97, 123)), [97, 65, 48, 57, 95, 32], [97, 0xe9, 0x12a, 0x20ac, 0x1f600], [40, 41, 42, 43, 46, 63, 91, 92, 93, 123, 124, 125, 97],
          [9, 10, 13, 32, 34, 39, 0, 11, 12, 97], [0x17b, 0x15b, 0x128, 0x229, 0x120, 0x7f, 0x80, 0xff, 0x100], [45, 94, 35, 93, 91, 47, 97, 49], [0, 1, 2, 3, 97], [0x10ffff, 0xd7ff, 0x7ff, 0x800, 0xffff, 0x10000, 98]]
SPECIAL = set(map(ord, "|()[]{}*?+.\\ \t\r\n\0"))
ESC = {13: "\\r", 10: "\\n", 9: "\\t", 0: "\\0", 12: "\\f", 11: "\\v"}


def gen(rng, depth, alpha, budget=60):
    """A random expression: ("set", neg, [(lo, hi)]), ("dot",), ("cat", [..]), ("alt", [..]), ("rep", e, lo, hi)."""
    x = rng.random()
    if depth <= 0 or x < 0.25:
        if x < 0.05 and depth <= 1:
            return ("dot",)
        if rng.random() < 0.3:
            rs = []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                a = rng.choice(alpha)
                b = a if rng.random() < 0.5 else min(0x10ffff, rng.choice(alpha + [a + 1, a + 5]))
                rs.append((a, b) if rng.random() < 0.1 else (min(a, b), max(a, b)))
            return ("set", rng.random() < 0.35, rs)
        a = rng.choice(alpha)
        return ("set", False, [(a, a)])
    if x < 0.55:
        return ("cat", [gen(rng, depth - 1, alpha, budget) for _ in range(rng.choice([2, 2, 3, 4]))])
    if x < 0.75:
        return ("alt", [gen(rng, depth - 1, alpha, budget) for _ in range(rng.choice([2, 2, 3, 4]))])
    lo, hi = rng.choice([(0, -1), (1, -1), (0, 1), (0, -1), (1, -1), (0, 1), (0, 0), (2, 2), (3, 3), (0, 2), (1, 3), (2, -1), (2, 4), (1, 1), (0, -2), (3, -1), (7, 9), (0, 6)])
    n = max(lo, hi, 1)
    if n > budget:
        lo, hi, n = 1, -1, 1
    return ("rep", gen(rng, depth - 1, alpha, budget // n), lo, max(hi, -1))


def chtext(rng, c):
    if c in ESC:
        return ESC[c] if c in (0, 10, 13) or rng.random() < 0.6 else ("\\" + chr(c) if c == 9 else chr(c) if c > 10 else ESC[c])
    if c in SPECIAL:
        return "\\" + chr(c)
    if c in (34, 39) and rng.random() < 0.4 or chr(c) in "-^#_/abcXYZ" and rng.random() < 0.05:
        return "\\" + chr(c)
    return chr(c) if c != 0 else "\\0"


def cltext(rng, c):
    x = rng.random()
    if c == 0 or x < 0.15:
        return rng.choice(["#x%x", "#x%X", "#0x%x", "#X%x", "#%d", "#0%o"]) % c
    if c in ESC:
        return ESC[c] if c != 9 or x < 0.6 else "\t"
    if chr(c) in "[]-\\#" or (chr(c) == "^" and x < 0.8):
        return "\\" + chr(c)
    return chr(c)


def text(rng, e, bl, prec=0):
    """One of the ways to write the expression."""
    def sp():
        return rng.choice([bl[0], bl[-1], bl + bl, "\\\n", "\\\r\n"]) if bl and rng.random() < 0.15 else ""
    if e[0] == "dot":
        return "." + sp()
    if e[0] == "set":
        if not e[1] and len(e[2]) == 1 and e[2][0][0] == e[2][0][1] and rng.random() < 0.9:
            return chtext(rng, e[2][0][0]) + sp()
        s = ""
        for a, b in e[2]:
            s += cltext(rng, a) + ("-" + cltext(rng, b) if a != b or rng.random() < 0.1 else "")
        return "[" + ("^" if e[1] else "") + s + "]" + sp()
    if e[0] == "cat":
        s = "".join(text(rng, x, bl, 1) for x in e[1])
    elif e[0] == "alt":
        s = ("|" + (rng.choice([" ", "\n", "\t"]) if rng.random() < 0.1 else "")).join(text(rng, x, bl, 0) for x in e[1])
    else:
        q = {(0, -1): "*", (1, -1): "+", (0, 1): "?"}.get((e[2], e[3]))
        if q is None or rng.random() < 0.15:
            lo, hi = e[2], e[3]
            b = lambda: rng.choice(["", "", "", bl[0]]) if bl else ""
            q = "{%s%d%s%s}" % (b(), lo, b(), "" if hi == lo and rng.random() < 0.7 else "," + b() + ("" if hi < 0 else "%d%s" % (hi, b())))
        t = text(rng, e[1], bl, 2)
        return (t + q + sp()) if prec < 2 else "(" + sp() + t + q + ")" + sp()
    lvl = 1 if e[0] == "cat" else 0
    if lvl < prec or rng.random() < 0.05:
        return "(" + sp() + s + ")" + sp()
    return s


def inset(e, c):
    return any(min(a, b) <= c <= max(a, b) for a, b in e[2]) != e[1]


def word(rng, e, alpha):
    if e[0] == "dot":
        return [rng.choice(alpha)]
    if e[0] == "set":
        if not e[1]:
            a, b = rng.choice(e[2])
            a, b = min(a, b), max(a, b)
            return [rng.choice([a, b, rng.randint(a, b)])]
        for _ in range(6):
            a, b = rng.choice(e[2])
            c = rng.choice([rng.choice(alpha), max(0, min(a, b) - 1), max(a, b) + 1])
            if c <= 0x10ffff:
                return [c]
        return [97]
    if e[0] == "cat":
        return sum((word(rng, x, alpha) for x in e[1]), [])
    if e[0] == "alt":
        return word(rng, rng.choice(e[1]), alpha)
    hi = e[3] if e[3] >= 0 else e[2] + rng.choice([0, 1, 1, 2, 3])
    n = rng.choice([e[2], hi, rng.randint(e[2], hi)])
    return sum((word(rng, e[1], alpha) for _ in range(n)), [])


def u8(t):
    return t.encode("utf-8", "surrogatepass")


def enc(cs):
    out = b""
    for c in cs:
        out += chr(c).encode("utf-8", "surrogatepass") if c <= 0x10ffff else b""
    return out


def variant(rng, w, alpha):
    w = list(w)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.randint(0, len(w))
        x = rng.random()
        if x < 0.4 and w:
            del w[min(k, len(w) - 1)]
        elif x < 0.7:
            w.insert(k, rng.choice(alpha))
        elif w:
            w[min(k, len(w) - 1)] = rng.choice(alpha + [w[min(k, len(w) - 1)] ^ 1])
    return w


def words(rng, e, alpha, n, maxlen=60):
    out = [[]]
    for _ in range(n):
        w = variant(rng, word(rng, e, alpha), alpha)
        if rng.random() < 0.3:
            w = w + variant(rng, word(rng, e, alpha), alpha)
        if rng.random() < 0.1:
            w = [rng.choice(alpha) for _ in range(rng.randint(1, 8))]
        out.append(w[:maxlen])
    return [enc(w) for w in out]


def special(rng, most=300):
    """Expressions with something special: (text, words)."""
    k = rng.randrange(9)
    a, b = chr(rng.choice([97, 120, 0xe9])), chr(rng.choice([98, 121, 0x20ac]))
    if k == 0:      # many words
        ws = ["".join(rng.choice("abcdef") for _ in range(rng.randint(1, 7))) for _ in range(rng.randint(10, 60))]
        return "|".join(ws), [w.encode() for w in ws[:20]] + [(w + "a").encode() for w in ws[:5]]
    if k == 1:      # a long word
        s = "".join(rng.choice("abc") for _ in range(rng.randint(150, 400)))
        return s, [s.encode(), s[:-1].encode(), (s + "a").encode()]
    if k == 2:      # nested counts
        n, m, p = rng.randint(1, 4), rng.randint(0, 4), rng.randint(1, 3)
        s = "((%s{%d}){%d,%d}%s){%d}" % (a, n, m, m + rng.randint(0, 2), b, p)
        return s, [((a * n * (m + j) + b) * p).encode() for j in range(3)] + [((a * n * m + b) * (p + d)).encode() for d in (-1, 1) if p + d >= 0] + [(a * 40).encode()]
    if k == 3:      # a large count
        n = rng.randint(most // 6, most)
        return "%s{%d}" % (a, n), [(a * (n + d)).encode() for d in (-1, 0, 1)]
    if k == 4:
        n = rng.randint(20, 90)
        return "(%s|%s){%d,%d}" % (a, b, n, n + 3), [(a * (n + d)).encode() for d in (-1, 0, 2, 3, 4)]
    if k == 5:      # deep groups
        n = rng.randint(10, 60)
        s = a
        for _ in range(n):
            s = "(" + s + rng.choice(["", "", "*", "?"]) + ")" + rng.choice(["", "+"])
        return s, [b"", (a * 3).encode(), (b + a).encode()]
    if k == 6:      # overlapping ends
        n = rng.randint(1, 4) if most < 100 or rng.random() < 0.5 else rng.randint(8, 9)
        s = "(%s|%s)*%s(%s|%s){%d}" % (a, b, a, a, b, n)
        return s, ["".join(rng.choice(a + b) for _ in range(rng.randint(n, 10 + 2 * n))).encode() for _ in range(12 * max(1, n - 5))]
    if k == 8:      # many states at once
        n, m = rng.randint(2, 4), rng.randint(2, 5)
        s = "(%s*%s{1,%d}(%s|%s%s)?){%d,}" % (a, b, n, a, b, a, m)
        return s, ["".join(rng.choice([a, b, b, b]) for _ in range(rng.randint(1, 20))).encode() for _ in range(25)]
    s = "[%s-%s]*([^%s]|%s)+" % (a, chr(ord(a) + 3), b, b)
    return s, ["".join(rng.choice(a + b + "cd\n") for _ in range(rng.randint(0, 9))).encode() for _ in range(12)]


def db_lines(ck, n, multi, nspecial):
    """-> [(blanks, [(expression text, user data)], [words])]"""
    rng, out = ck.rng, []
    for k in range(n):
        alpha = rng.choice(ALPHAS)
        bl = rng.choice([" \t"] * 5 + ["", " ", "\t"])
        es, ws = [], []
        for _ in range(rng.choice([1, 2, 3, 5]) if multi else 1):
            e = gen(rng, rng.choice([1, 2, 3, 3]), alpha, 20 if multi else 60)
            es.append((text(rng, e, bl), rng.choice([0, 1, 2, 7, 99, 123456])))
            ws += words(rng, e, alpha, max(3, 24 // (len(es) + 1)))
        if rng.random() < 0.1:
            ws.append(b"\xff\x80a\xe2\x82")
        out.append((bl, es, ws))
    for k in range(nspecial):
        s, ws = special(rng)
        out.append((" \t", [(s, k)], ws))
    return out


def db_head(bl, es):
    return ("" if bl == " \t" else "bl %s;" % hx(bl)) + ";".join("add %s %d" % (hx(u8(t)), u) for t, u in es)


def cps(s):
    return [ord(c) for c in s]


def emitted(out):
    import re
    return [json.loads(m.group(1)) for m in re.finditer(r'^"EDGE (\[.*\])"$', out, re.M)]


# ---------------------------------------------------------------- X01: the language
def nfa_cases(meta, n, r):
    bl, es, ws = meta[n]
    q = 0 if bl == " \t" else 1
    adds = r[q:q + len(es)]
    if any(a[0] < 0 for a in adds):
        return [{"k": "hist", "bl": cps(bl), "h": [{"op": "add", "e": cps(es[j][0]), "ud": 0, "ret": a[0], "n": a[1]} for j, a in enumerate(adds)]}]
    return [{"k": "nfa", "bl": cps(bl), "es": [cps(t) for t, _ in es], "ud": [u for _, u in es], "ws": [list(w) for w in ws], "acc": r[q + len(es):]}]


def x01(ck):
    exe = build_harness("rex_h.c")
    out, st = modelcheck("RexMC", "SPECIFICATION Spec\nCONSTANTS Depth = %d\n Longest = %d\nINVARIANTS ByDerivative Written\nACTION_CONSTRAINT Emit\n" % (ck.n(2, 2), ck.n(4, 5)))
    ck.add(st)
    texts = sorted({"".join(map(chr, t)) for t in emitted(out)})
    ck.notes["model_expressions"] = len(texts)
    if len(texts) < 100:
        raise MachineryError("the model printed only %d expressions" % len(texts))
    import itertools
    allw = [bytes(w) for k in range(1, 5) for w in itertools.product(b"ab", repeat=k) if k == 4 or len(w) == 4]
    small = [(" \t", [(t, 1)], allw) for t in texts]
    meta = small + db_lines(ck, ck.n(1800, 30000), False, ck.n(80, 900))
    lines = [db_head(bl, es) + ";" + ";".join("sim " + hx(w) for w in ws) for bl, es, ws in meta]
    judge_lines(ck, "language", "RexJudge", exe, lines, lambda n, r: nfa_cases(meta, n, r), timeout=40)
    ck.notes["words"] = sum(len(m[2]) for m in meta)


# ---------------------------------------------------------------- X02: deterministic form
def dfa_cases(meta, n, r):
    bl, es, ws = meta[n]
    q = 0 if bl == " \t" else 1
    if any(a[0] < 0 for a in r[q:q + len(es)]):
        return nfa_cases(meta, n, r)
    st = r[q + len(es)]
    if st is None:
        return []
    rest = r[q + len(es) + 1:]
    head = {"bl": cps(bl), "es": [cps(t) for t, _ in es], "ud": [u for _, u in es]}
    out = [dict(head, k="walk", ws=[list(w) for w in ws], walk=rest[0::2], sim=rest[1::2])]
    if n % 2:
        if any(s["sub"] != s["acc"] for s in st):
            out.append({"k": "substates differ from accepting substates", "st": st})
    bounds = {t[0] for s in st for t in s["tr"]}
    size = len(st) * (len(bounds) + 2) * sum(len(t) for t, _ in es)
    if size < 100000:
        out.append(dict(head, k="dfa", st=st))
    return out


def x02(ck):
    exe = build_harness("rex_h.c")
    meta = db_lines(ck, ck.n(1600, 7000), True, ck.n(30, 150))
    lines = [db_head(bl, es) + ";dfa %d;" % (n % 2) + ";".join("walk %s;dsim %s" % (hx(w), hx(w)) for w in ws) for n, (bl, es, ws) in enumerate(meta)]
    cnt = [0]

    def mk(n, r):
        c = dfa_cases(meta, n, r)
        cnt[0] += any(x["k"] == "dfa" for x in c)
        return c
    judge_lines(ck, "deterministic form", "RexJudge", exe, lines, mk, timeout=40)
    ck.notes["databases_compared_for_all_inputs"] = cnt[0]


# ---------------------------------------------------------------- X03: match and scan
def x03(ck):
    rng = ck.rng
    exe = build_harness("rex_h.c")
    meta, lines = [], []
    for k in range(ck.n(1500, 9000)):
        cmds, uses = [], []
        res = []
        for j in range(rng.choice([1, 1, 2])):
            alpha = rng.choice(ALPHAS)
            if rng.random() < 0.06:
                t, ws = special(rng, 60)
                e = None
            else:
                e = gen(rng, rng.choice([1, 2, 2, 3]), alpha, 20)
                t, ws = text(rng, e, " \t"), None
            res.append((t, e, ws, alpha))
            cmds.append("re %d %s" % (j, hx(u8(t))))
        texts = []
        for _ in range(rng.randint(3, 9)):
            j = rng.randrange(len(res))
            t, e, ws, alpha = res[j]
            w = rng.choice(ws) if e is None else rng.choice(words(rng, e, alpha, 3))
            x = rng.random()
            fill = lambda n: enc([rng.choice(alpha + [rng.choice(alpha) ^ 32, 120]) for _ in range(n)])
            b = w if x < 0.25 else fill(rng.randint(0, 12)) + w + fill(rng.randint(0, 5))
            if x > 0.9:
                b = fill(rng.randint(0, 80)) + b
            if x > 0.985 and e is not None:
                b = rng.choice([b"z", b"a", b"\xc3\xa9", b"\n"]) * rng.randint(100, 600) + w
            if rng.random() < 0.1:
                b = b[:rng.randint(0, len(b))] + bytes([rng.choice([0x80, 0xc3, 0xe2, 0xf0, 0xff, 0])]) + b[rng.randint(0, len(b)):]
            texts.append((j, b))
        for _ in range(rng.randint(4, 14)):
            j, b = rng.choice(texts)
            if rng.random() < 0.15:
                j = rng.randrange(len(res))
            en, op = rng.choice([0, 0, 1]), rng.choice("mss")
            cmds.append("%s %d %d %s" % (op, j, en, hx(b)))
            uses.append((j, en, op, list(b)))
        meta.append((res, uses))
        lines.append(";".join(cmds))

    def mk(n, r):
        res, uses = meta[n]
        out = []
        if len(r) != len(res) + len(uses):
            return [{"k": "a scan answers differently without where", "r": r}]
        for j, (t, _, _, _) in enumerate(res):
            if r[j] == 0:
                out.append({"k": "hist", "bl": [32, 9], "h": [{"op": "regex", "e": cps(t), "ret": 0, "n": 0}]})
                continue
            u = [{"op": op, "enc": en, "b": b, "ret": r[len(res) + q]} for q, (jj, en, op, b) in enumerate(uses) if jj == j]
            if u:
                out.append({"k": "re", "e": cps(t), "use": u})
        return out
    judge_lines(ck, "match and scan", "RexJudge", exe, lines, mk, timeout=40)
    ck.notes["calls"] = sum(len(m[1]) for m in meta)


# ---------------------------------------------------------------- X04: malformed expressions
FRAG = ["a", "b", "|", "(", ")", "*", "+", "?", "{", "}", "{2}", "{1,", "{,2}", "{2,1}", "{0}", "{0,0}", "[", "]", "[^", "^", "-", "[a-", "[a-c]", "[]", "\\", "\\n", "\\\\", "#", "[#", "#x41", "[#x41]", ".",
        " ", "\t", "\n", "\r", ",", "1", "{1", "{1 ,2 }", "{x}", "\\]", "[\\", "\u012a", "\u017b", "{\u0131}", "[#\u0131]", "\U0010ffff", "\u20ac", "{2\u0120}", "||", "()", "(|", "|)", "[[", "[z-a]", "[a--]", "{3}{2}", "**", "\"", "'",
        "{99", "{00001}", "{1,2,3}", "{ 1}", "\\\n", "\\\r\n", "\\\r", "\x7f", "/"]


def mangled(rng):
    if rng.random() < 0.5:
        return "".join(rng.choice(FRAG) for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 7])))
    alpha = rng.choice(ALPHAS)
    t = list(text(rng, gen(rng, rng.choice([1, 2, 3]), alpha, 10), " \t"))
    for _ in range(rng.choice([0, 1, 1, 2])):
        k = rng.randint(0, len(t))
        x = rng.random()
        if x < 0.35 and t:
            del t[min(k, len(t) - 1)]
        elif x < 0.8:
            t.insert(k, rng.choice(FRAG))
        else:
            t = t[:k]
    return "".join(t)


def x04(ck):
    rng = ck.rng
    exe = build_harness("rex_h.c")
    meta, lines = [], []
    import itertools
    every = ["".join(x) for k in (0, 1, 2) for x in itertools.product(FRAG, repeat=k)]
    singles = ["".join(x) for x in itertools.product("a|()*{2}[]^-\\", repeat=ck.n(3, 4))]
    pool = every + singles
    rng.shuffle(pool)
    pool = pool[:ck.n(7000, len(pool))]
    while pool or len(meta) < ck.n(4000, 40000):
        h, cmds = [], []
        bl = rng.choice([" \t"] * 3 + ["", " "])
        if bl != " \t":
            cmds.append("bl " + hx(bl))
        probes = []
        for _ in range(rng.randint(2, 9)):
            x = rng.random()
            if x < 0.65 or not probes:
                t = pool.pop() if pool and x < 0.5 else mangled(rng)
                if rng.random() < 0.25:
                    e = gen(rng, 2, [97, 98, 99], 10)
                    t = text(rng, e, bl)
                    probes += words(rng, e, [97, 98, 99], 2, 20)
                if "\0" in t:
                    continue
                h.append({"op": "add", "e": cps(t), "ud": len(h)})
                cmds.append("add %s %d" % (hx(u8(t)), h[-1]["ud"]))
                probes.append(rng.choice([t[:3], "ab", "a", "", "\n", "b" * 5]).encode("utf-8", "surrogatepass"))
            elif x < 0.75:
                t = pool.pop() if pool else mangled(rng)
                if "\0" in t:
                    continue
                h.append({"op": "regex", "e": cps(t)})
                cmds.append("re 0 " + hx(u8(t)))
            else:
                w = rng.choice(probes)
                h.append({"op": "sim", "w": list(w)})
                cmds.append("sim " + hx(w))
        meta.append((bl, h))
        lines.append(";".join(cmds))

    def mk(n, r):
        bl, h = meta[n]
        q = r[0 if bl == " \t" else 1:]
        out, cnt = [], 0
        for j, e in enumerate(h):
            d = dict(e)
            if e["op"] == "add":
                d["ret"], cnt = q[j]
            elif e["op"] == "regex":
                d["ret"] = q[j]
            else:
                d["acc"] = q[j]
            d["n"] = cnt
            out.append(d)
        return [{"k": "hist", "bl": cps(bl), "h": out}]
    judge_lines(ck, "malformed expressions", "RexJudge", exe, lines, mk, timeout=40)


CHECKS = {"X01": x01, "X02": x02, "X03": x03, "X04": x04}


# ---------------------------------------------------------------- X05: the lexer generator
def build_rexcc(tag="asan", flags=None):
    """The lexer generator of the working tree."""
    lib, fl = build_lib(flags, tag)
    exe = os.path.join(scratch(), "rexcc-" + tag)
    if not os.path.exists(exe):
        d = os.path.join(REPO, "rexcc")
        r = sh(["gcc", "-w", "-D_GNU_SOURCE", "-I" + REPO, "-I" + REPO + "/arch/unix", "-I" + d, "-I" + d + "/unix"] + list(fl) +
               sorted(glob.glob(d + "/*.c") + glob.glob(d + "/unix/*.c")) + [lib, "-o", exe, "-lpthread", "-lm"])
        if r.returncode:
            raise MachineryError("rexcc does not build\n" + r.stderr.decode(errors="replace")[-2000:])
    return exe


NOISE = ["", "/* %% */", "static int unused_%d;", "// a comment with \u20ac and \\\\ .", "#define NOISE_%d \"%%%%\"", "  ", "\t/* tab */", "/*\n\n*/", "#if 0\n %% \n%%%%%c\n#endif"]


def noise(rng):
    return "".join((rng.choice(NOISE).replace("_%d", "_%d" % rng.randrange(10 ** 6)).replace("%%%%", "%%") + rng.choice(["\n", "\n", "\r\n"])) for _ in range(rng.choice([0, 0, 1, 3, 8])))


def token_file(rng):
    """-> (text, names, values, words)"""
    alpha = rng.choice(ALPHAS[:6] + ALPHAS[7:])
    nl = rng.choice(["\n"] * 4 + ["\r\n"])
    pro = noise(rng) + '#include <stddef.h>\n#include "rex/rexdfatypes.h"\n'
    names, values, ws, rules = [], [], [], ""
    long_ = rng.random() < 0.04
    for j in range(rng.choice([1, 2, 3, 4, 6, 9])):
        if rng.random() < 0.2:
            rules += rng.choice(["", "", " ", "\t", " a comment [(", "\tTOKEN a", "  x \\" + nl + "TOKEN a"]) + nl
        e = gen(rng, rng.choice([0, 1, 2, 2, 3]), alpha, 20)
        if long_ and j == 0:
            e = ("alt", [("cat", [("set", False, [(c, c)]) for c in (rng.choice(range(97, 123)) for _ in range(rng.randint(3, 9)))]) for _ in range(rng.randint(70, 140))])
        t = text(rng, e, " \t")
        t = t.replace("\\\n", "\0").replace("\\\r\n", "\0").replace("\n", "").replace("\r", "").replace("\0", "\\" + nl)
        x = rng.random()
        if x < 0.5:
            nm, v = "T_%s_%d" % (rng.choice("AB"), j), rng.choice([1, 256 + j, 1000 + j, 7])
            pro += "#define %s %d\n" % (nm, v)
        elif x < 0.7:
            v = rng.choice([0, 5, 300 + j, 2000000 + j])
            nm = str(v)
        elif x < 0.85 and "'" not in t:
            v = rng.choice(b"abc(*+;")
            nm = "'%c'" % v
        else:
            nm, v = "(T_BASE+%d)" % j, 5000 + j
        names.append(nm)
        values.append(v)
        rules += nm + rng.choice([" ", "\t", "    ", " \t "]) + t + nl
        ws += words(rng, e, alpha, 4, 25)
    if "T_BASE" in rules:
        pro += "#define T_BASE 5000\n"
    pro += noise(rng)
    epi = noise(rng) + '#include "rexcc_drv.h"' + rng.choice(["", "\n", "\n" + noise(rng)])
    many = [b"".join(rng.choice(ws) for _ in range(rng.randint(1, 5)))[:60] for _ in range(8)]
    return pro + "%%" + nl + rules + "%%" + nl + epi, names, values, ws + many, epi


def broken_file(rng):
    t, _, _, _, epi = token_file(rng)
    last = t.rindex("\n%%", 0, len(t) - len(epi)) + 1
    first = t.rindex("\n%%", 0, last - 1) + 1
    x = rng.random()
    if x < 0.45:
        bad = rng.choice(["NAME", "NAME ", "NAME *a", "NAME (a", "NAME a)", "NAME [a", "NAME a{2,1}", "NAME [b-", "NAME a||b", "NAME |", "'x' )", "5"])
        p = t.index("\n", first) + 1
        ls = [m for m in range(p, last + 1) if t[m - 1] == "\n" and t[m - 2:m - 1] != "\\" and t[m - 3:m - 1] != "\\\r"]
        m = rng.choice(ls)
        return t[:m] + bad + "\n" + t[m:]
    if x < 0.6:
        return t[:last]
    if x < 0.7:
        return t[first:].replace("%%", "%", 1)
    if x < 0.8:
        return t[:first + 2] + "\n" + rng.choice(["%%\n", "\n\n%%\n", " \n%%\nint x;\n"])
    return mangled(rng) + "\n"


def x05(ck):
    rng = ck.rng
    cc = build_rexcc()
    lib, fl = build_lib()
    d = os.path.join(scratch(), "gen")
    os.makedirs(d, exist_ok=True)

    def generate(n, t, subs):
        src, out = os.path.join(d, "%d.rexcc" % n), os.path.join(d, "%d.c" % n)
        with open(src, "wb") as fh:
            fh.write(u8(t))
        args = ["-s"] if subs else []
        try:
            r = sh([cc] + args + [src, "-o", out], env=ENV, timeout=60) if n % 3 else sh([cc, "-o", out] + args + [src], env=ENV, timeout=60)
        except subprocess.TimeoutExpired:
            return "hang of the generator", None
        if r.returncode not in (0, 1, 2):
            return "the generator crashed: " + r.stderr.decode(errors="replace")[-400:], None
        return None, (open(out, "rb").read() if os.path.exists(out) else b"")

    def one(job):
        n, kind, (t, names, values, ws, epi) = job
        subs = n % 2
        why, out = generate(n, t, subs)
        if why:
            return why, []
        tb = list(u8(t))
        cut = out.find(b"static rexdfss_t accsubstates")
        esize = len(u8(epi))
        cases = [{"k": "file", "t": tb, "size": len(out), "head": list(out[:max(cut, 0)]), "tail": list(out[len(out) - esize:]) if esize else []}]
        if kind == "bad" or not out:
            return None, cases
        exe = os.path.join(d, str(n))
        r = sh(["gcc", "-w", "-O1", "-I" + REPO, "-I" + REPO + "/arch/unix", "-I" + HARN] + fl + [os.path.join(d, "%d.c" % n), lib, "-o", exe, "-lpthread", "-lm"])
        if r.returncode:
            return "the generated scanner does not compile: " + r.stderr.decode(errors="replace")[:400], cases
        try:
            r = sh([exe] + (["s"] if subs else []), input="".join(w.hex() + "\n" for w in ws).encode(), env=ENV, timeout=60)
        except subprocess.TimeoutExpired:
            return "the generated scanner hangs", cases
        os.unlink(exe)
        if r.returncode:
            return "the generated scanner crashed: " + r.stderr.decode(errors="replace")[-400:], cases
        tk = [json.loads(l) for l in r.stdout.splitlines()]
        cases.append({"k": "scan", "t": cps(t), "names": [cps(x) for x in names], "values": values, "ws": [list(w) for w in ws], "tokens": tk})
        return None, cases

    jobs = [(n, "good", token_file(rng)) for n in range(ck.n(240, 2500))]
    jobs += [(len(jobs) + n, "bad", (broken_file(rng), [], [], [], "")) for n in range(ck.n(220, 2000))]
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(one, jobs))
    cases, own = [], []
    for n, (why, cs) in enumerate(res):
        if why and one(jobs[n])[0]:
            ck.violation("generator: %s" % why, {"file": jobs[n][2][0], "why": why})
        for c in cs:
            cases.append(c)
            own.append(n)
    rej, st = judge("RexccJudge", cases)
    ck.add(st)
    ck.ntraces += len(cases)
    ck.notes["token_files"] = len(jobs)
    for i in rej[:40]:
        if cases[i] in one(jobs[own[i]])[1]:
            ck.violation("generator: the specification refuses %s" % st["explain"].get(i, "")[:300], {"file": jobs[own[i]][2][0], "case": cases[i]})
    for c in cases[:: max(1, len(cases) // 4)]:
        ck.sample(json.dumps(c)[:400])


CHECKS["X05"] = x05

"""Checks of the RPA engine (A01..A14)."""
import json
from vlib import *
import gen_rpa
from rpa_cost import cost
from gen_long import long_case
from gen_rpa import Gen, Render, seq, alt, grp, ref, chr_, rule


def build():
    return build_harness("rpa_h.c")


def setup(text, opt=1, bm=1):
    return "new 0;cfg 0 1 %d;cfg 0 3 %d;open 0;load 0 %s;close 0;comp 0;st 0 0" % (opt, bm, hx(text))


NSETUP = 8     # answers of setup(); [4] load, [6] compile


def recs_of(rs):
    """[type, rule number, uid, offset, size] of each record, as the specification lists them"""
    return [[r[0], r[1], r[2], r[3], r[4]] for r in rs]


def err_obs(e):
    return {"op": "err", "code": e["code"] if e["mask"] & 1 else 0, "name": e["name"], "uid": e["uid"], "off": e["off"]}


def rulearg(items, root):
    it = items[root]
    return "%d" % root


class Run:
    """One input and the calls to make on it."""

    def __init__(self, root, inp, enc=0, ic=False, frm=0, ops=("match", "parse"), same=False, sess=0):
        self.root, self.inp, self.enc, self.ic, self.frm, self.ops, self.same, self.sess = root, inp, enc, ic, frm, ops, same, sess


class Case:
    """A grammar tree, its text, and a session of runs."""

    def __init__(self, items, text, root=0, inp=b"", enc=0, ic=False, frm=0, ops=("match", "parse"), opt=1, bm=1, nc=0, runs=None, stacks=()):
        self.items, self.text, self.opt, self.bm, self.nc, self.stacks = items, text, opt, bm, nc, list(stacks)
        self.runs = runs or [Run(root, inp, enc, ic, frm, ops)]
        self.inp = self.runs[0].inp
        self.limit = 5000

    def line(self):
        l = setup(self.text, self.opt, self.bm) + ";nocache 0 %d" % self.nc
        for k, z in enumerate(self.stacks):     # more sessions on the same database
            l += ";st %d 0 %d" % (k + 1, z)
        for w in self.runs:
            e = w.enc + (256 if w.ic else 0)
            r = rulearg(self.items, w.root)
            for o in w.ops:
                if o == "err":
                    l += ";serr %d" % w.sess
                elif o == "all":
                    l += ";scanall %d %s %d %s" % (w.sess, r, e, hx(w.inp))
                elif o == "tree":
                    l += ";parse %d %s %d %s %d" % (w.sess, r, e, hx(w.inp), w.frm)
                elif o == "more":
                    l += ";parsea %d %s %d . %d" % (w.sess, r, e, w.frm)
                elif o == "lim":
                    l += ";match %d %s %d %s %d;serrc %d" % (w.sess, r, e, hx(w.inp), w.frm, w.sess)
                elif o == "abort":
                    l += ";abort %d" % w.sess
                elif o == "out":
                    l += ";match %d %s %d %s %d;serrc %d" % (w.sess, r, e, hx(w.inp), len(w.inp) + 1, w.sess)
                else:
                    l += ";%s %d %s %d %s %d" % (o, w.sess, r, e, ("@" if w.same else "") + hx(w.inp), w.frm)
        return l

    def cheap(self):
        if any(it["k"] == "anon" and any(it["n"] in (o["n"], o.get("t")) for o in self.items if o["k"] != "anon") for it in self.items):
            return False        # an anonymous rule spelled like the name of a rule: which of them a name means is not defined
        for w in self.runs:
            chars = w.inp[w.frm:].decode({0: "utf-8", 1: "latin-1", 2: "utf-16le"}[w.enc], "replace")
            if cost(self.items, w.root, [ord(c) for c in chars], w.ic, self.limit, any(o in ("scan", "all") for o in w.ops)) > self.limit:
                return False
        return True

    def cases(self, res):
        out = []
        k = NSETUP + 1 + len(self.stacks)
        for w in self.runs:
            obs = []
            for o in w.ops:
                v = res[k]
                k += 1
                if o in ("lim", "out"):
                    obs.append({"op": o, "v": v, "code": res[k]})
                    k += 1
                elif o == "abort":
                    obs.append({"op": o, "v": v})
                elif o == "match" or o == "exec":
                    obs.append({"op": o, "v": v})
                elif o == "parse":
                    obs.append({"op": o, "v": v[0], "recs": recs_of(v[1])})
                elif o == "tree" or o == "more":
                    obs.append({"op": o, "v": v[0], "recs": [[r[0], r[1], r[2], r[3], r[4], r[5], r[7]] for r in v[1]]})
                elif o == "err":
                    obs.append(err_obs(v))
                elif o == "scan":
                    obs.append({"op": o, "v": v if v[0] > 0 else [v[0], -1]})
                elif o == "all":
                    obs.append({"op": o, "v": v[:-1], "end": v[-1][1]})
            out.append({"items": self.items, "inp": list(w.inp), "from": w.frm, "enc": w.enc, "ic": w.ic, "root": w.root + 1,
                        "scan": any(o in ("scan", "all") for o in w.ops), "obs": obs})
        return out

    def replay(self):
        return {"grammar": self.text, "runs": [{"rule": w.root, "input_hex": w.inp.hex(), "encoding": w.enc, "icase": w.ic, "from": w.frm, "session": w.sess,
                "calls": list(w.ops)} for w in self.runs],
                "optimizations": self.opt, "bitmap": self.bm, "nocache": self.nc, "line": self.line()}


def run_cases(ck, cases, what, exe=None, module="RpaJudge", const="", keyf=None, nsample=6):
    """Runs the cases on the library and lets TLC judge them."""
    exe = exe or build()
    n0 = len(cases)
    cases = [c for c in cases if c.cheap()]
    ck.notes["left_out_too_costly"] = ck.notes.get("left_out_too_costly", 0) + n0 - len(cases)
    res = run_lines(exe, [c.line() for c in cases])
    js, owners = [], []
    for c, (r, why) in zip(cases, res):
        if r is None:
            ck.violation("%s: %s on %r / %r" % (what, why, c.text, c.inp), dict(c.replay(), key=keyf(c) if keyf else None, why=why))
            continue
        if r[4] < 0 or r[6] != 0:
            ck.violation("%s: the library refuses a well-formed grammar (load %s, compile %s): %r" % (what, r[4], r[6], c.text),
                         dict(c.replay(), answers=r))
            continue
        for m, x in enumerate(c.cases(r)):
            js.append(x)
            owners.append((c, m))
    rej, st = judge(module, js, const=const)
    ck.add(st)
    ck.ntraces += len(js)
    for i in rej[:40]:
        c, m = owners[i]
        again, why = run_one(exe, c.line())
        if again is not None:
            r2, _ = judge(module, [c.cases(again)[m]], const=const)
            if not r2:
                continue
        ck.violation("%s: %r on %r gives %s" % (what, c.text, bytes(c.runs[m].inp), json.dumps(js[i]["obs"])[:300]),
                     dict(c.replay(), key=keyf(c) if keyf else None, run=m, observed=js[i]["obs"], required=st["explain"].get(i)))
    for j in js[:: max(1, len(js) // nsample)]:
        ck.sample(json.dumps(j))
    ck.notes["grammars"] = ck.notes.get("grammars", 0) + len({c.text for c in cases})
    ck.notes["nonempty_matches"] = ck.notes.get("nonempty_matches", 0) + sum(
        1 for j in js if any((o.get("v") if isinstance(o.get("v"), int) else 0) > 0 for o in j["obs"]))
    return js, owners


def longs(rng, n, opsets, kinds=None, limit=10 ** 6, maxn=400, **kw):
    """n sessions of one to three runs of a realistic grammar on inputs of up to some hundred characters"""
    out = []
    while len(out) < n:
        kind, items, text, root, s0 = long_case(rng, kind=rng.choice(kinds) if kinds else None, n=rng.choice([x for x in (60, 120, 200, 300, 400) if x <= maxn]))
        if kw.get("dirs") and rng.random() < 0.5:
            items = with_dirs(rng, items, [it["n"] for it in items], kw["dirs"], rng.choice([1, 2]))
            text = Render(rng).grammar(items)
            root = root_of(items, kind, root)
        rr = []
        for k in range(rng.choice([1, 1, 2, 3])):
            s = s0 if k == 0 else (s0[: rng.randrange(max(1, len(s0)))] + s0[rng.randrange(max(1, len(s0))):])[:maxn + 40]
            enc = rng.choice(kw.get("encs", [0]))
            rr.append(Run(root, s.encode({0: "utf-8", 1: "latin-1", 2: "utf-16le"}[enc]), enc=enc, ic=enc != 1 and rng.random() < kw.get("ic", 0.0),
                          ops=rng.choice(opsets), same=False))
        cfg = kw.get("cfgs") or [(rng.choice([0, 1, 1]), rng.choice([0, 1, 1]), 0)]
        for (o, b, c) in cfg:
            x = Case(items, text, opt=o, bm=b, nc=c, runs=rr)
            x.limit = limit
            out.append(x)
    return out


def root_of(items, kind, old):
    """the rule that had number old before directives were put in between"""
    return [k for k, it in enumerate(items) if it["k"] == "rule"][old]


def mk(rng, n, **kw):
    """n random (grammar, input) pairs"""
    out = []
    g = Gen(rng, kw.get("alphabet", "abc"), kw.get("names", ("a", "b", "c")), kw.get("neg", True))
    per = kw.get("per", 3)
    while len(out) < n:
        items = g.grammar(anon=kw.get("anon", 0.2), d=rng.choice([0, 1, 2, 2]))
        text = Render(rng).grammar(items)
        for _ in range(per):
            root = rng.randrange(len(items))
            out.append((items, text, root, g.text(items, root)))
    return out[:n]


# ------------------------------------------------------------------ A01
def small_exprs(al="ab"):
    """Every expression of a small size, for the exhaustive part."""
    atoms = [chr_(c) for c in al] + [{"k": "any", "q": ""}, {"k": "cls", "r": [[ord(al[0]), ord(al[-1])]], "q": ""}]
    items = [dict(a, q=q) for a in atoms for q in ("", "?", "*", "+")]
    for i in items:
        yield seq([i])
    for i in items:
        for j in items[:8]:
            yield seq([i, j])
    for i in items[:8]:
        for j in items[:8]:
            yield alt([seq([i]), seq([j])])
            yield {"k": "min", "l": seq([i]), "rs": [seq([j])]}
            yield seq([grp(alt([seq([i]), seq([j])]), "*"), chr_(al[0])])
            yield seq([grp(seq([i, j]), "?"), chr_(al[1])])
    for i in items:
        yield seq([{"k": "not", "e": i}, chr_(al[1])])


def words(al, n):
    out = [""]
    lvl = [""]
    for _ in range(n):
        lvl = [w + c for w in lvl for c in al]
        out += lvl
    return out


def a01(ck):
    ops = ("match", "parse", "exec")
    cases = []
    ws = words("ab", ck.n(3, 5)) + ["aac", "c"]
    for e in small_exprs():
        items = [rule("a", e)]
        text = Render().grammar(items)
        for w in (ws if not ck.quick else ck.rng.sample(ws, 4)):
            cases.append(Case(items, text, 0, w.encode(), ops=ops))
    for items, text, root, inp in mk(ck.rng, ck.n(5000, 60000)):
        cases.append(Case(items, text, root, inp.encode(), ops=ops))
    cases += longs(ck.rng, ck.n(120, 2500), [("match",), ("match", "exec"), ("parse",)])
    run_cases(ck, cases, "match size")
    # texts as such: the specification reads the (mutated) text itself
    rng = ck.rng
    tc = []
    while len(tc) < ck.n(1200, 15000):
        g, items, text = gtext(rng, dirs=rng.random() < 0.2)
        t = text if rng.random() < 0.3 else mutate(rng, text)
        if bignum(t) or len(t) > 120:
            continue
        rs = []
        for _ in range(3):
            k = rng.choice(roots(items))
            rs.append((k, g.text(items, k, 5)[:5].encode()))
        tc.append(TCase([t], runs=rs))
    run_texts(ck, tc, "match of a grammar text")
    ck.assumptions = ["random inputs up to 9 characters, grammars up to 4 rules of depth 3; realistic ones up to 440 characters"]


def notqs(rng, n):
    """what is not there, quantified: (^<a>)? (^<a>+)* (^(<a> <b>))+ in front of, between and behind references"""
    out = []
    while len(out) < n:
        def r(q=None):
            return ref(rng.choice("ab"), rng.choice(["", "", "?", "*", "+"]) if q is None else q)

        def no():
            e = rng.choice([r(rng.choice(["", "+"])), r(""), grp(seq([r(""), r("")])), grp(alt([seq([r("")]), seq([r(""), r("")])]))])
            return grp(seq([{"k": "not", "e": e}]), rng.choice(["?", "?", "*", "+", ""]))
        es = [rng.choice([no, no, r, lambda: chr_(rng.choice("xyz"), rng.choice(["", "?", "*"]))])() for _ in range(rng.choice([2, 3, 3, 4]))]
        items = [rule("s", rng.choice([seq(es), seq(es), seq([grp(seq(es), rng.choice(["", "?", "*"]))] + [r("?")])])),
                 rule("a", rng.choice([seq([chr_("x")]), seq([chr_("x"), ref("b", "?")]), alt([seq([chr_("x"), chr_("y")]), seq([chr_("z")])])])),
                 rule("b", seq([chr_("y", rng.choice(["", "", "+"]))]))]
        for _ in range(2):
            out.append((items, Render(rng).grammar(items), 0, "".join(rng.choice("xyz") for _ in range(rng.randint(1, 5))).encode()))
    return out[:n]


# ------------------------------------------------------------------ A02
def refgen(rng):
    """grammars where much is named: many references, alternatives that are abandoned late, failing repetitions"""
    g = Gen(rng, "ab", ("a", "b", "c", "d"))
    return g


class RefGen(Gen):
    """Half of the items are references."""

    def item(self, d):
        if self.names and self.rng.random() < 0.5:
            return ref(self.rng.choice(self.names), self.q())
        return Gen.item(self, d)


DIRS = ("emit", "noemit", "emitall", "emitnone", "emitid", "abort")


def directive(rng, names, kinds):
    d = rng.choice(kinds)
    t = rng.choice(names)
    u = rng.choice([1, 7, 65535, 12345, 65536, 0x12345, 2147483647])
    sp = rng.choice(["", " "])
    head = "#%s!%s%s" % (sp, sp, d)
    if d in ("emitall", "emitnone"):
        n = head
    elif d == "emitid":
        n = "%s %s%s %d" % (head, t, rng.choice(["", " ALIAS", " X_1"]), u)
    else:
        n = "%s %s" % (head, t)
    return {"k": "dir", "n": n, "d": d, "t": t, "u": u}


def with_dirs(rng, items, names, kinds, n):
    items = list(items)
    for _ in range(n):
        items.insert(rng.randint(0, len(items)), directive(rng, names, kinds))
    return items


def roots(items):
    return [k for k, it in enumerate(items) if it["k"] != "dir"]


def gcases(ck, n, gen, per=3, anon=0.2, kinds=None, ndirs=(0, 1, 2), lr=False, depth=(0, 1, 2, 2), nrules=None, runs=1, runargs=None, cfgs=((1, 1, 0),),
           enc=None, maxlen=9):
    rng = ck.rng
    out = []
    while len(out) < n:
        items = gen.grammar(nrules=nrules and rng.choice(nrules), anon=anon, d=rng.choice(depth), lr=lr)
        if kinds:
            items = with_dirs(rng, items, gen.names, kinds, rng.choice(ndirs))
        text = Render(rng).grammar(items)
        for _ in range(per):
            rr = []
            for m in range(rng.choice(runs) if isinstance(runs, (list, tuple)) else runs):
                root = rng.choice(roots(items))
                s = gen.text(items, root, maxlen)
                rr.append(Run(root, (enc or (lambda t: t.encode()))(s), **(runargs(rng, s) if runargs else {})))
            for (o, b, c) in cfgs:
                out.append(Case(items, text, opt=o, bm=b, nc=c, runs=rr))
    return out[:n]


def a02(ck):
    def ra(rng, s):
        frm = rng.choice([0, 0, 0, 1, 2])
        return {"ops": rng.choice([("tree",), ("tree", "more"), ("match", "tree"), ("tree", "tree")]), "frm": min(frm, len(s.encode()))}
    cases = gcases(ck, ck.n(1500, 20000), RefGen(ck.rng, "ab", ("a", "b", "c", "d")), kinds=("noemit", "emitnone", "emitall", "emitid"),
                   ndirs=(0, 0, 0, 1), runs=[1, 2, 3], runargs=ra, nrules=(2, 3, 4))
    cases += [Case(items, text, runs=[Run(root, inp, ops=ck.rng.choice([("tree",), ("tree", "more")]))]) for items, text, root, inp in lr_cases(ck.rng, ck.n(300, 4000))]
    cases += longs(ck.rng, ck.n(120, 2500), [("tree",), ("match", "tree"), ("tree", "more")], dirs=("noemit", "emitid"))
    cases += [Case(items, text, opt=ck.rng.choice([0, 1, 1]), bm=ck.rng.choice([0, 1]), runs=[Run(root, inp, ops=("match", "tree"))])
              for items, text, root, inp in notqs(ck.rng, ck.n(500, 6000))]
    run_cases(ck, cases, "records")
    ck.assumptions = ["random inputs up to 9 characters, realistic ones up to 440, grammars up to 4 rules of depth 3"]


# ------------------------------------------------------------------ A03
CFGS = [(o, b, c) for o in (0, 1) for b in (0, 1) for c in (0, 1)]


def single_alts(rng, n):
    """alternations of single characters and classes (candidates for being merged), with quantifiers here and there, in a sequence"""
    out = []
    while len(out) < n:
        def one():
            e = rng.choice([chr_(rng.choice("abx")), chr_(rng.choice("abx")), {"k": "cls", "r": [sorted([rng.randint(97, 99), rng.randint(97, 120)])], "q": ""},
                            {"k": "cls", "r": [[97, 97], [98, 98]], "q": ""}, {"k": "any", "q": ""}, {"k": "spc", "c": 10, "q": ""}, ref("t")])
            e = dict(e)
            e["q"] = rng.choice(["", "", "", "", "*", "+", "?"])
            return e
        b = alt([seq([one()] + ([one()] if rng.random() < 0.1 else [])) for _ in range(rng.choice([2, 2, 3, 4]))])
        if rng.random() < 0.15:
            b["es"][rng.randrange(len(b["es"]))] = rng.choice([{"k": "not", "e": one()}, {"k": "min", "l": seq([one()]), "rs": [seq([one()])]}, seq([grp(alt([seq([one()]), seq([one()])]), rng.choice(["", "*"]))])])
        body = rng.choice([lambda: b, lambda: seq([grp(b, rng.choice(["", "", "*", "+", "?"])), chr_("x", rng.choice(["", "?"]))]),
                           lambda: seq([grp(b), grp(b)]), lambda: seq([chr_("a", "?"), grp(b)]), lambda: {"k": "min", "l": seq([grp(b)]), "rs": [seq([chr_("a")])]}])()
        items = [rule("s", body), rule("t", seq([chr_("b", rng.choice(["", "+"]))]))]
        try:
            text = Render(rng).grammar(items)
        except Exception:
            continue
        out.append((items, text))
    return out


def a03(ck):
    def ra(rng, s):
        return {"ops": rng.choice([("match", "parse"), ("parse", "match"), ("parse", "err"), ("match", "err"), ("scan", "parse")]),
                "same": rng.random() < 0.6}
    n = ck.n(2400, 24000)
    cases = gcases(ck, n // 2, Gen(ck.rng, "ab", ("a", "b", "c")), per=1, runs=[2, 3], runargs=ra, cfgs=CFGS, kinds=("abort", "noemit"), ndirs=(0, 0, 1))
    cases += gcases(ck, n // 2, RefGen(ck.rng, "ab", ("a", "b", "c", "d")), per=1, runs=[2, 3], runargs=ra, cfgs=CFGS, nrules=(2, 3, 4),
                    kinds=("abort", "noemit"), ndirs=(0, 0, 1))
    for items, text, root, inp in lr_cases(ck.rng, ck.n(40, 400)):
        for (o, b, c) in CFGS:
            cases.append(Case(items, text, opt=o, bm=b, nc=c, runs=[Run(root, inp, ops=("parse", "match"))]))
    g = Gen(ck.rng, "abx\n", ())
    for items, text in single_alts(ck.rng, ck.n(130, 3000)):
        rr = [Run(0, g.text(items, 0, 7).encode(), ops=("match", "parse")) for _ in range(4)]
        for (o, b, c) in CFGS:
            cases.append(Case(items, text, opt=o, bm=b, nc=c, runs=rr))
    cases += longs(ck.rng, ck.n(200, 4000), [("match",), ("parse",), ("match", "parse")], cfgs=CFGS, maxn=200, limit=200000)
    run_cases(ck, cases, "result depends on the optimisations")
    ck.assumptions = ["random inputs up to 9 characters, realistic ones up to 240; 8 combinations of optimisations, bitmap and cache"]


# ------------------------------------------------------------------ A04
UNI = "ab\u00e9\u00ff\u0416\u4e2d\u20ac\U0001f600"


def a04(ck):
    rng = ck.rng
    cases = []
    g = Gen(rng, UNI, ("a", "b", "c"))
    n = ck.n(1400, 20000)
    while len(cases) < n:
        if rng.random() < 0.4:
            g.al = rng.choice(["a\u00e9\u00ff", UNI, "\u0416\U0001f600x", "\x7f\u0080\u07ff\u0800\uffff\U00010000\U0010ffff"])
        items = g.grammar(anon=0.1, d=rng.choice([0, 1, 1, 2]))
        text = Render(rng).grammar(items)
        for _ in range(2):
            root = rng.choice(roots(items))
            s = g.text(items, root, 7)
            encs = [(0, s.encode()), (2, s.encode("utf-16le"))]
            if all(ord(c) < 256 for c in s):
                encs.append((1, s.encode("latin-1")))
            if rng.random() < 0.5:      # damage
                e, b = rng.choice(encs)
                b = bytearray(b)
                for _ in range(rng.choice([1, 1, 2])):
                    r = rng.random()
                    if r < 0.4 and b:
                        del b[rng.randrange(len(b))]
                    elif r < 0.7:
                        b.insert(rng.randint(0, len(b)), rng.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf0, 0xff, 0xd8, 0xdc, 0xfe, 0]))
                    elif b:
                        b[rng.randrange(len(b))] = rng.choice([0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xff, 0xd8, 0xdc])
                encs.append((e, bytes(b)))
                if e == 0:
                    encs.append((rng.choice([1, 2]), bytes(b)))
            cases.append(Case(items, text, runs=[Run(root, b, enc=e, ops=rng.choice([("match", "parse"), ("parse",), ("match", "scan", "all")])) for e, b in encs]))
    # every truncation of multi-byte characters, followed by nothing or by another character
    for ch in "\u00e9\u20ac\U0001f600\u0416":
        for e, codec in ((0, "utf-8"), (2, "utf-16le")):
            b = ch.encode(codec)
            for cut in range(len(b) + 1):
                for tail in (b"", b"a", ch.encode(codec), b"a\0"):
                    for gr in ([rule("a", seq([{"k": "any", "q": "+"}]))], [rule("a", seq([{"k": "any", "q": ""}, {"k": "any", "q": "?"}]))],
                               [rule("a", seq([{"k": "cls", "r": [[1, 0x10ffff]], "q": "*"}, {"k": "not", "e": chr_("a")}]))]):
                        cases.append(Case(gr, Render().grammar(gr), runs=[Run(0, b[:cut] + tail, enc=e, ops=("match", "parse", "all"))]))
    cases += longs(ck.rng, ck.n(60, 1200), [("match",), ("parse",)], encs=[0, 1, 2])
    run_cases(ck, cases, "encoding")
    ck.assumptions = ["inputs up to 7 characters"]


# ------------------------------------------------------------------ A05
LETTERS = "aAzZ[`{@mM\u00c0\u00e0\u00d7\u00f7\u00df\u00ff\u0390\u03b0\u03a9\u03c9\u0410\u0430\u042f\u044f\u0401\u0451\u4e2d"


def a05(ck):
    rng = ck.rng
    cases = []
    n = ck.n(2500, 30000)
    g = Gen(rng, LETTERS, ("a", "b", "c"))
    while len(cases) < n:
        g.al = "".join(rng.sample(LETTERS, rng.choice([3, 4, 6]))) + rng.choice(["aA", "aA", "\u0416\u0436", ""])
        items = g.grammar(anon=0.1, d=rng.choice([0, 1, 1, 2]))
        text = Render(rng).grammar(items)
        for _ in range(2):
            root = rng.choice(roots(items))
            s = g.text(items, root, 7)
            s = "".join(rng.choice([c, c, c.swapcase() if len(c.swapcase()) == 1 else c]) for c in s)
            e, b = rng.choice([(0, s.encode()), (0, s.encode()), (2, s.encode("utf-16le"))])
            cases.append(Case(items, text, opt=rng.choice([0, 1, 1]), bm=rng.choice([0, 1, 1]),
                              runs=[Run(root, b, enc=e, ic=True, ops=("match", "parse")), Run(root, b, enc=e, ops=("match",))]))
    # each letter of the blocks against itself, its partner and its neighbours, as character, range and class
    chars = [c for r in ((0x20, 0x7f), (0xa0, 0x100), (0x386, 0x3d0), (0x400, 0x460)) for c in range(*r)]
    step = ck.n(3, 1)
    for c in chars[rng.randrange(step)::step]:
        for form in ([seq([chr_(c)])], [seq([{"k": "cls", "r": [[c, c]], "q": ""}])], [seq([{"k": "cls", "r": [[c, c + 2]], "q": "+"}])]):
            items = [rule("a", form[0])]
            text = Render().grammar(items)
            ins = {c, c + 1, ord(chr(c).upper()[0]), ord(chr(c).lower()[0]), c ^ 32, c + 32, max(1, c - 32)}
            cases.append(Case(items, text, runs=[Run(0, chr(i).encode(), ic=True, ops=("match",)) for i in sorted(ins)]))
    run_cases(ck, cases, "case-insensitive")
    ck.assumptions = ["inputs up to 7 characters"]


# ------------------------------------------------------------------ A06
def lr_cases(rng, n, kinds=("direct", "direct", "indirect", "indirect3", "nested", "wrapped"), aborts=()):
    """left recursive grammars: direct, indirect over one or two rules, with recursive right operands, nested levels"""
    out = []
    C = lambda s: [chr_(c) for c in s]

    def tail():
        return rng.choice([C("x"), C("y"), C("xy"), [chr_("x", "+")], [ref("t")], C("x") + [ref("t")], [chr_("y", "?"), chr_("x")], [ref("e")],
                           C("x") + [ref("e")], [{"k": "cls", "r": [[120, 121]], "q": ""}], [grp(alt([seq(C("x")), seq(C("y"))]))],
                           [chr_("x", "*")], C("(") + [ref("e")] + C(")"), [grp(seq(C("x") + [ref("t")]), "*"), chr_("y")]])

    def base():
        return rng.choice([[ref("t")], C("n"), C("m"), C("(") + [ref("e")] + C(")"), [ref("t", "+")], C("n") + [ref("t")], [ref("t"), chr_("m", "?")]])

    while len(out) < n:
        kind = rng.choice(kinds)
        t = rule("t", rng.choice([seq(C("n")), alt([seq(C("n")), seq(C("m"))]), seq([chr_("n", "+")]), seq([{"k": "cls", "r": [[109, 110]], "q": "+"}])]))
        if kind == "direct":
            brs = [seq([ref("e")] + tail()) for _ in range(rng.choice([1, 1, 2, 3]))] + [seq(base()) for _ in range(rng.choice([1, 1, 2]))]
            items = [rule("e", alt(brs)), t]
        elif kind == "indirect":
            def first():
                # the reference to f may be optional; a recursive use behind it would be the known finding optional-before-recursion
                t = tail()
                safe = t[0] != ref("e") and t != [chr_("x", "*")]
                return seq([ref("f", "?" if safe and rng.random() < 0.3 else "")] + t)
            brs = [first() for _ in range(rng.choice([1, 1, 2]))] + [seq(base())]
            items = [rule("e", alt(brs)), rule("f", rng.choice([seq([ref("e")] + tail()), alt([seq([ref("e")] + tail()), seq(base())])])), t]
        elif kind == "indirect3":
            items = [rule("e", alt([seq([ref("f")] + tail()), seq(base())])), rule("f", alt([seq([ref("g")] + tail()), seq(base())])),
                     rule("g", rng.choice([seq([ref("e")] + tail()), alt([seq([ref("e")] + tail()), seq(base())])])), t]
        elif kind == "nested":
            items = [rule("e", alt([seq([ref("e")] + C("x") + [ref("f")]), seq([ref("f")])])),
                     rule("f", alt([seq([ref("f")] + C("y") + [ref("t")]), seq([ref("t")])])), rule("t", alt([seq(C("n")), seq(C("(") + [ref("e")] + C(")"))]))]
        else:
            items = [rule("s", rng.choice([seq([ref("e", "+")]), seq([grp(seq([ref("e")] + C(",")), "*"), ref("e")]), alt([seq([ref("e")] + C(",")), seq([ref("e")] + C("q"))]),
                                           seq([ref("e", "?")] + C(",")), seq([{"k": "not", "e": ref("e")}, ref("e", "?")])])),
                     rule("e", alt([seq([ref("e")] + tail()), seq(base())])), t]
        for it in items:
            if it["b"]["k"] == "alt" and it["n"] in "efg":
                if rng.random() < 0.3:
                    rng.shuffle(it["b"]["es"])
                if rng.random() < 0.15:
                    it["b"] = seq([grp(it["b"])])
        rng.shuffle(items)
        if aborts:
            items = with_dirs(rng, items, aborts, ("abort", "abort", "emitid", "noemit"), rng.choice([1, 2]))
        elif kind == "direct" and rng.random() < 0.15:
            items = with_dirs(rng, items, ["e"], ("abort", "emitid"), 1)
        elif rng.random() < 0.3:
            items = with_dirs(rng, items, ["e", "f", "t", "s"], ("noemit", "emitnone", "emitid", "emitall"), rng.choice([1, 2]))
        text = Render(rng, cref=0.5).grammar(items)
        g = Gen(rng, "nmxy(),q", ())
        for _ in range(4):
            root = rng.choice(roots(items))
            s = g.text(items, root, 11)
            out.append((items, text, root, s.encode()))
    return out[:n]


def a06(ck):
    rng = ck.rng
    cases = []
    for items, text, root, inp in lr_cases(rng, ck.n(3000, 40000)):
        cases.append(Case(items, text, opt=rng.choice([0, 1, 1]), bm=rng.choice([0, 1, 1]), nc=rng.choice([0, 0, 1]),
                          runs=[Run(root, inp, ops=rng.choice([("match", "parse"), ("parse",)]))]))
    cases += longs(ck.rng, ck.n(60, 1200), [("match",), ("parse",)], kinds=["lr"], maxn=120)
    # the recursive use behind something optional that did consume: a recorded finding, so these cases and no others are excused
    hidden = []
    for items in ([rule("a", alt([seq([chr_("x", "?"), ref("a")]), seq([chr_("z")])]))], [rule("a", alt([seq([chr_("x", "*"), ref("a")]), seq([chr_("z")])]))]):
        for inp in (b"xz", b"xxz"):
            hidden.append(Case(items, Render().grammar(items), 0, inp))
    items = [rule("f", seq([ref("e"), chr_("x")])), rule("e", alt([seq([ref("f", "?"), ref("e")]), seq([chr_("n")])]))]
    hidden.append(Case(items, Render().grammar(items), 1, b"nxn"))
    run_cases(ck, cases + hidden, "left recursion", keyf=lambda c: "optional-before-recursion" if any(c is h for h in hidden) else None)
    ck.assumptions = ["random inputs up to 11 characters, arithmetic expressions up to 160"]


# ------------------------------------------------------------------ A07
def a07(ck):
    def ra(rng, s):
        return {"ops": ("match", "tree")}
    cases = gcases(ck, ck.n(2600, 30000), RefGen(ck.rng, "ab", ("a", "b", "c", "d")), kinds=DIRS[:5], ndirs=(0, 1, 2, 3, 4), runargs=ra, nrules=(2, 3, 4), runs=[1, 2])
    run_cases(ck, cases, "emission directives")
    ck.assumptions = ["inputs up to 9 characters, up to 4 directives"]


# ------------------------------------------------------------------ A08
def a08(ck):
    def ra(rng, s):
        return {"ops": rng.choice([("parse", "err"), ("match", "err"), ("match", "err", "parse", "err"), ("scan",)]),
                "frm": rng.choice([0, 0, 1, 2]) if len(s) > 3 else 0}
    k = ("abort", "abort", "abort", "emitid", "noemit")
    n = ck.n(1500, 20000)
    cases = gcases(ck, n, RefGen(ck.rng, "ab", ("a", "b", "c", "d")), kinds=k, ndirs=(1, 2, 3), runargs=ra, nrules=(2, 3, 4), runs=[2, 3])
    cases += gcases(ck, n // 3, Gen(ck.rng, "ab", ("a", "b", "c")), kinds=k, ndirs=(1, 2, 3), runargs=ra, runs=[2, 3])
    cases += gcases(ck, n // 4, Gen(ck.rng, "a\u00e9", ("a", "b", "c")), kinds=k, ndirs=(1, 2), runs=[1, 2], enc=lambda s: s.encode("utf-16le"),
                    runargs=lambda rng, s: dict(ra(rng, s), enc=2))
    for items, text, root, inp in lr_cases(ck.rng, n // 3, ("direct", "direct", "wrapped"), ("e", "e", "t", "s")):
        cases.append(Case(items, text, opt=ck.rng.choice([0, 1, 1]), bm=ck.rng.choice([0, 1, 1]), nc=ck.rng.choice([0, 0, 1]),
                          runs=[Run(root, inp, ops=rng_ops) for rng_ops in ck.rng.sample([("parse", "err"), ("match", "err"), ("scan",)], 2)]))
    run_cases(ck, cases, "abort directive")
    ck.assumptions = ["inputs up to 9 characters, up to 3 directives"]


# ------------------------------------------------------------------ A11
def a11(ck):
    def ra(rng, s):
        return {"ops": rng.choice([("scan", "all"), ("scan", "match"), ("match", "scan")]), "ic": rng.random() < 0.2,
                "frm": rng.choice([0, 0, 0, min(1, len(s))])}
    cases = gcases(ck, ck.n(1300, 16000), Gen(ck.rng, "abc", ("a", "b", "c")), kinds=("abort",), ndirs=(0, 0, 0, 0, 1), runargs=ra, runs=[1, 2], maxlen=14)
    g = Gen(ck.rng, UNI, ("a", "b"))
    for codec, e in (("utf-8", 0), ("utf-16le", 2)):
        cases += gcases(ck, ck.n(250, 3000), g, runargs=lambda rng, s: {"ops": ("scan", "all"), "enc": e}, enc=lambda s: s.encode(codec))
    cases += longs(ck.rng, ck.n(60, 1200), [("scan",), ("all",)], kinds=["list", "kv", "comment"], maxn=300, limit=200000)
    run_cases(ck, cases, "scan")
    ck.assumptions = ["inputs up to 14 characters"]


CHECKS = {"A01": a01, "A02": a02, "A03": a03, "A04": a04, "A05": a05, "A06": a06, "A07": a07, "A08": a08, "A11": a11}


# ------------------------------------------------------------------ grammar texts (A10, A14, A01)
class TCase:
    """Grammar texts loaded one after the other, then table, compilation, look-ups and runs."""

    def __init__(self, texts, looks=(), runs=(), deep=False):
        self.deep = deep
        self.texts, self.looks, self.runs = [t if isinstance(t, bytes) else t.encode("utf-8", "surrogatepass") for t in texts], list(looks), list(runs)

    def line(self):
        l = "new 0;open 0"
        for t in self.texts:
            l += ";load 0 %s;err 0" % hx(t)
        l += ";close 0;table 0;comp 0;err 0;st 0 0"
        for n in self.looks:
            l += ";lookup 0 %s" % hx(n)
        for rid, inp in self.runs:
            l += ";parse 0 %d 0 %s" % (rid, hx(inp))
        return l

    def case(self, r):
        loads = [{"b": list(t), "ret": r[2 + 2 * k], "code": r[3 + 2 * k]["code"], "off": r[3 + 2 * k]["off"], "line": r[3 + 2 * k]["line"]}
                 for k, t in enumerate(self.texts)]
        p = 2 + 2 * len(self.texts)
        tb = r[p + 1]
        table = [[e["id"], list(e["name"].encode("latin-1")), e["len"], e["cpy"], list(bytes.fromhex(e["text"]))] for e in tb["f"]]
        comp = [r[p + 2], r[p + 3]["code"], list(r[p + 3]["name"].encode("latin-1"))]
        q = p + 5
        looks = [[list(n.encode("utf-8", "surrogatepass") if isinstance(n, str) else n), r[q + k]] for k, n in enumerate(self.looks)]
        q += len(self.looks)
        kinds = [e[1] for e in table]
        runs = []
        if r[p + 2] == 0:
            for k, (rid, inp) in enumerate(self.runs):
                if rid < len(table) and table[rid][4][:1] != [35]:      # not a directive
                    runs.append({"root": rid, "inp": list(inp), "ret": r[q + k][0], "recs": recs_of(r[q + k][1])})
        if self.deep:
            q = 2 + 2 * len(self.texts) + 5
            return {"deep": True, "crash": False, "loads": loads, "comp": comp,
                    "runs": [{"inp": list(inp), "ret": r[q + k][0]} for k, (rid, inp) in enumerate(self.runs)] if comp[0] == 0 else []}
        return {"deep": False, "crash": False, "loads": loads, "table": table, "back": tb["b"], "first": tb["first"], "last": tb["last"], "comp": comp, "looks": looks, "runs": runs}

    def replay(self):
        return {"texts": [t.decode("utf-8", "replace") for t in self.texts], "texts_hex": [t.hex() for t in self.texts], "lookups": [str(x) for x in self.looks],
                "runs": [[a, b.hex()] for a, b in self.runs], "line": self.line()}


def run_texts(ck, cases, what):
    exe = build()
    res = run_lines(exe, [c.line() for c in cases])
    js, own = [], []
    for c, (r, why) in zip(cases, res):
        if r is None and c.runs and not c.deep:
            # did a run of a left-recursive grammar do it?  Those are the business of A06, which also lists what is wrong with them
            bare = TCase(c.texts, c.looks)
            r2, _ = run_one(exe, bare.line())
            if r2 is not None:
                ck.notes["crashes_judged"] = ck.notes.get("crashes_judged", 0) + 1
                if not judge("RpaText", [dict(bare.case(r2), crash=True)])[0]:
                    continue
        if r is None:
            ck.violation("%s: %s on %r" % (what, why, c.texts), dict(c.replay(), why=why))
            continue
        js.append(c.case(r))
        own.append(c)
    rej, st = judge("RpaText", js)
    ck.add(st)
    ck.ntraces += len(js)
    for i in rej[:40]:
        again, why = run_one(exe, own[i].line())
        if again is not None and not judge("RpaText", [own[i].case(again)])[0]:
            continue
        ck.violation("%s: %r gives %s" % (what, own[i].texts, json.dumps({k: v for k, v in js[i].items() if k != "table"})[:200]),
                     dict(own[i].replay(), observed=js[i], required=st["explain"].get(i)))
    for j in js[:: max(1, len(js) // 6)]:
        ck.sample(json.dumps(j))
    ck.notes["texts_accepted"] = ck.notes.get("texts_accepted", 0) + sum(1 for j in js if all(l["ret"] >= 0 for l in j["loads"]))
    ck.notes["texts_refused"] = ck.notes.get("texts_refused", 0) + sum(1 for j in js if any(l["ret"] < 0 for l in j["loads"]))
    ck.notes["runs"] = ck.notes.get("runs", 0) + sum(len(j.get("runs", ())) for j in js)
    return js, own


TOKENS = ["::=", "(", ")", "[", "]", "<", ">", "<a>", "<:b:>", "'", '"', "^", "-", "|", "?", "*", "+", "~", ".", "#", "!", "\\", "\n", "\r\n", " ", "\t", ";", ":", "=",
          "&", "a", "b", "_", "0", "1", "x", "#x4", "#5", "#!", "emit", "noemit", "emitid", "abort", "\\\n", "\\n", "\u00e9", "\u20ac", "#!emit a\n", "#!emitid b 7\n",
          "[#x41-#66]", "[a-b]", "'ab'", "{", "}", ",", "/", "\0", "\x01"]


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        p = rng.randint(0, len(s))
        if r < 0.35 and s:
            s = s[:p] + s[min(len(s), p + rng.choice([1, 1, 2, 4])):]
        elif r < 0.75:
            s = s[:p] + rng.choice(TOKENS) + s[p:]
        elif r < 0.9 and s:
            q = rng.randint(0, len(s))
            s = s[:p] + s[q:q + rng.choice([1, 2, 3, 6])] + s[p:]
        else:
            s = s[:p]
    return s


def bignum(s):
    import re
    return re.search(r"[0-9a-fA-F]{7,}", s) is not None


def soup(rng):
    return "".join(rng.choice(TOKENS) for _ in range(rng.randint(1, 14)))


def gtext(rng, dirs=True, lr=False):
    g = Gen(rng, rng.choice(["ab", "abc", "a\u00e9", "ab"]), ("a", "b", "c"))
    items = g.grammar(anon=0.3, d=rng.choice([0, 1, 1, 2]), lr=lr)
    if dirs:
        items = with_dirs(rng, items, g.names + ["zz"], DIRS, rng.choice([0, 0, 1, 2]))
    return g, items, Render(rng).grammar(items)


def a10(ck):
    rng = ck.rng
    cases = []
    # every short text behind "a::=" and on its own
    al = ["a", "'", "(", ")", "[", "]", "|", "-", "^", "*", "<a>", " ", "\n", "\\", "#", ".", "~"]
    lim = ck.n(2, 3)
    lvl = [""]
    for _ in range(lim):
        lvl = [w + c for w in lvl for c in al]
        for w in lvl:
            cases.append(TCase(["a::=" + w]))
            cases.append(TCase([w]))
    if ck.quick:
        for _ in range(700):
            cases.append(TCase(["a::=" + "".join(rng.choice(al) for _ in range(rng.choice([3, 4, 5, 6])))]))
    n = ck.n(2200, 30000)
    while n > 0:
        g, items, text = gtext(rng)
        for _ in range(3):
            t = mutate(rng, text) if rng.random() < 0.8 else text
            if rng.random() < 0.1:
                t = soup(rng)
            if bignum(t):
                continue
            tt = [t]
            if rng.random() < 0.15:
                tt = rng.choice([[text, t], [t, text], [t, t]])
            b = [x.encode() for x in tt]
            if rng.random() < 0.05 and b[0]:
                x = bytearray(b[0])
                x[rng.randrange(len(x))] = rng.choice([0x80, 0xc3, 0xff, 0xe2])
                b[0] = bytes(x)
            cases.append(TCase(b, looks=rng.choice([[], ["a"]])))
            n -= 1
    # nested too deep for the parser: refused with a code (depths in between take too long, see DESIGN.md)
    for d in ck.n([40, 80, 160, 400], list(range(10, 90, 10)) + [150, 160, 200, 500, 2000]):
        cases.append(TCase(["a ::= " + "(" * d + "x" + ")" * d + "\n"], deep=True))
        cases.append(TCase(["a ::= " + "(" * d + "x" + ")" * (d - 1) + "\n"], deep=True))
        cases.append(TCase(["a ::= " + "(" * d + "x" + ")" * d + "\n", "b ::= y", "c ::= <nix>"], deep=True))
    for d in ck.n([30, 42, 43, 44], list(range(2, 48))):
        cases.append(TCase(["a ::= " + "(z|" * d + "x" + ")" * d + "\n"], deep=True, runs=[(0, b"x"), (0, b"z")]))
        cases.append(TCase(["a ::= " + "(^z " * d + "x" + ")" * d + "\n"], deep=True, runs=[(0, b"y" * d + b"x")]))
        cases.append(TCase(["a ::= " + "(z" * d + "x" + ")?" * d + "\n"], deep=True, runs=[(0, b"z" * d + b"x")]) if d <= 40 else TCase(["a ::= x"]))
    run_texts(ck, cases, "grammar text")
    ck.assumptions = ["texts up to about 150 characters, numbers below 2^31"]


def a14(ck):
    rng = ck.rng
    cases = []
    for _ in range(ck.n(2000, 24000)):
        texts = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            t = gtext(rng)[2]
            if rng.random() < 0.3:
                t = t + "\n" + rng.choice(["longer_name_1 ::= 'x'", "_x_ ::= 'q'", "a_ ::= 'x'", "x9_A ::= <a>|'q'", "A_b0 ::= a", "a1::=a", "A ::= b", "_ ::= 'q' \n", "ab ::= c", "#comment\naa ::= <aa> 'x' | 'y'"])
            if rng.random() < 0.25:
                t = rng.choice(["# comment\n", "\n\n", ";", "  ", "#!emitall # x\n"]) + t
            if rng.random() < 0.15:
                t = mutate(rng, t)
            texts.append(t)
        if any(bignum(t) for t in texts):
            continue
        looks = ["a", "b", "zz", rng.choice(["", "A", "aa", "longer_name_1", "longer_name_", "longer_name_12", "a1", "_", "#!emitall", "ab"]), texts[0].strip()[:20]]
        looks += [x for x in ("_x_", "a_", "x9_A", "A_b0", "a") if any(x + " ::=" in t for t in texts)] * 2
        cases.append(TCase(texts, looks=[l for l in looks if "\0" not in l]))
    run_texts(ck, cases, "rule table")
    ck.assumptions = ["up to 3 texts, 15 entries"]


CHECKS.update({"A10": a10, "A14": a14})


# ------------------------------------------------------------------ A09
LIFE_POOL = [([rule("a", seq([chr_("x")]))], "a ::= x\n"), ([rule("a", seq([chr_("y"), chr_("x")]))], "a ::= 'yx'\n"),
             ([rule("b", seq([ref("a"), chr_("z")]))], "b ::= <a> z\n")]
BADTEXTS = ["a ::= x\n)", "a ::= (x\nb", "b ::= 'q' | y\n'"]


def life_cmds(e):
    """driver commands of an event; the answer is that of the last one"""
    o = e["op"]
    if o in ("open", "close", "comp", "first", "last", "exe"):
        return "%s 0" % o
    if o == "load":
        return "load 0 %s" % hx(e["text"])
    if o == "cfg":
        return "cfg 0 %d %d" % (e["c"], e["v"])
    if o == "look":
        return "lookup 0 %s" % hx(e["n"])
    if o in ("next", "prev", "exeoff"):
        return "%s 0 %d" % (o, e["r"])
    if o == "run":
        return "match 0 %d 0 %s" % (e["r"], hx(bytes(e["inp"])))
    if o == "err":
        return "errc 0"
    if o == "serr":
        return "serrc 0"
    raise ValueError(o)


def life_line(evs):
    return "new 0;st 0 0;" + ";".join(life_cmds(e) for e in evs)


def life_trace(evs, r):
    return [dict({k: v for k, v in e.items() if k != "text"}, ret=x) for e, x in zip(evs, r[2:])]


def run_traces(ck, what, module, seqs, linef, tracef, exe, keyf=None, const=""):
    """seqs: event sequences. Runs each on the code, lets the trace specification accept or refuse the recording."""
    res = run_lines(exe, [linef(e) for e in seqs])
    tr, own = [], []
    for e, (r, why) in zip(seqs, res):
        if r is None:
            ck.violation("%s: %s" % (what, why), {"line": linef(e), "why": why, "key": keyf(e, None) if keyf else None})
            continue
        tr.append(tracef(e, r))
        own.append(e)
    bad, st = tracecheck(module, tr, const=const)
    ck.add(st)
    ck.ntraces += len(tr)
    again = [(i, run_one(exe, linef(own[i]))[0]) for i in bad[:40]]
    told = [(i, tracef(own[i], r)) for i, r in again if r is not None]
    still = {told[j][0] for j in (tracecheck(module, [x for _, x in told], const=const)[0] if told else [])}
    for i, r in again:
        if r is not None and i not in still:
            continue
        ck.violation("%s: the specification refuses %s" % (what, json.dumps(tr[i])[:500]),
                     {"line": linef(own[i]), "trace": tr[i], "key": keyf(own[i], tr[i]) if keyf else None, "tlc": st.get("stuck", {}).get(i)})
    for j in tr[:: max(1, len(tr) // 4)]:
        ck.sample(json.dumps(j)[:500])
    return tr


def a09(ck):
    rng = ck.rng
    out, st = modelcheck("RpaLifeMC", """SPECIFICATION Spec
CONSTANT MaxLoads = %d
PROPERTIES FailureChangesNothing CompiledIsClosed RunNeedsCompiled RunIsFresh
VIEW View
ACTION_CONSTRAINT Emit
""" % ck.n(2, 3), workers=1)
    ck.add(st)
    es = [(x["f"], x["e"], x["t"]) for x in edges(out)]
    ck.notes["model_edges"] = len(es)
    init = {"s": {"items": [], "closed": True, "comp": False, "err": -1, "serr": -1}, "n": 0}
    paths = tours(es, init, maxlen=80)
    seqs = []
    for p in paths:
        q = []
        for e in p:
            d = {"op": e["op"]}
            if e["op"] == "load":
                if e["bad"]:
                    d.update(bad=True, items=[], len=0, text=rng.choice(BADTEXTS))
                else:
                    it, tx = LIFE_POOL[e["k"] - 1]
                    d.update(bad=False, items=it, len=len(tx), text=tx)
            elif e["op"] == "look":
                d["n"] = e["n"]
            elif e["op"] in ("exeoff", "run"):
                d["r"] = e["r"]
                d["inp"] = e["inp"]
            q.append(d)
        seqs.append(q)
    ck.notes["tours"] = len(seqs)
    # random histories over real grammars
    for _ in range(ck.n(2500, 20000)):
        g = Gen(rng, "ab", ("a", "b", "c"))
        lr = rng.random() < 0.25
        pool = []
        for _ in range(3):
            if lr:
                its = [rule("a", alt([seq([ref("a"), chr_(rng.choice("ab"))]), seq([chr_(rng.choice("ab"))])]))] if rng.random() < 0.5 else \
                      [rule(rng.choice("ab"), seq([chr_(rng.choice("ab"), rng.choice(["", "?", "*"])), chr_("a")]))]
            else:
                names = g.names
                its = g.grammar(nrules=rng.choice([1, 2]), anon=0.1, d=rng.choice([0, 1]))
                g.names = names
            if rng.random() < 0.3 and not lr:
                its = with_dirs(rng, its, ["a", "b", "c"], ("abort", "noemit", "emitid"), 1)
            pool.append((its, Render(rng).grammar(its)))
        allitems = []
        q = []
        for _ in range(rng.choice([8, 14, 22, 30])):
            op = rng.choice(["open", "close", "load", "load", "comp", "comp", "run", "run", "run", "cfg", "look", "err", "serr", "exe", "exeoff", "next", "prev", "first", "last"])
            if rng.random() < 0.4:       # the usual order
                op = {"open": "load", "load": "close", "close": "comp", "comp": "run", "run": "run"}.get(q[-1]["op"] if q else "", "open")
            d = {"op": op}
            if op == "load":
                if rng.random() < 0.15:
                    d.update(bad=True, items=[], len=0, text=rng.choice(BADTEXTS))
                else:
                    it, tx = rng.choice(pool)
                    if len([x for x in q if x["op"] == "load" and not x["bad"]]) >= 4:
                        continue
                    d.update(bad=False, items=it, len=len(tx.encode()), text=tx)
                    allitems = allitems + it
            elif op == "look":
                d["n"] = rng.choice(["a", "b", "c", "nope"])
            elif op == "cfg":
                d["c"], d["v"] = rng.choice([(1, 0), (1, 1), (3, 0), (3, 1)])
            elif op in ("next", "prev", "exeoff"):
                d["r"] = rng.choice([0, 0, 1, 2, 3, 50] + ([-1] if op == "exeoff" else []))
            elif op == "run":
                d["r"] = rng.choice([0, 0, 1, 1, 2, 3, 4, 9, -1])
                d["inp"] = [rng.choice(b"aab") for _ in range(rng.randint(0, 5))]
            q.append(d)
        seqs.append(q)
    run_traces(ck, "life cycle", "RpaLifeTrace", seqs, life_line, life_trace, build())
    ck.assumptions = ["up to 4 loads and 30 calls per history; what a run of a directive's number does is not specified"]


CHECKS["A09"] = a09


# ------------------------------------------------------------------ A13
def a13(ck):
    rng = ck.rng
    cases = []
    n = ck.n(900, 12000)
    while len(cases) < n:
        lr = rng.random() < 0.2
        if lr:
            items, text, root, inp = lr_cases(rng, 1)[0]
            g = Gen(rng, "abnx", ("e",))
            texts = [inp.decode()] + [g.text(items, root, 7) for _ in range(3)]
        else:
            g = RefGen(rng, "ab", ("a", "b", "c")) if rng.random() < 0.6 else Gen(rng, "a\u00e9", ("a", "b"))
            items = g.grammar(nrules=rng.choice([2, 3]), anon=0.1, d=rng.choice([0, 1, 2]))
            if rng.random() < 0.4:
                items = with_dirs(rng, items, g.names, ("abort", "noemit"), rng.choice([1, 2]))
            text = Render(rng).grammar(items)
            texts = [g.text(items, rng.choice(roots(items)), rng.choice([3, 9])) for _ in range(4)]
        rr = []
        stacks = rng.choice([[], [0], [0, 0], [0, rng.choice([8, 16, 24, 40])]])
        for _ in range(rng.randint(3, 9)):
            s = rng.choice(texts)
            enc = rng.choice([0, 0, 0, 1, 2])
            b = s.encode({0: "utf-8", 1: "latin-1", 2: "utf-16le"}[enc])
            k = rng.randint(0, len(stacks))
            small = k > 0 and stacks[k - 1] != 0
            ops = ("lim",) if small else rng.choice([("parse",), ("match",), ("tree",), ("parse", "err"), ("match", "parse"), ("abort", "parse"), ("out", "match"), ("scan",),
                                                     ("exec", "tree")])
            if lr:
                ops = tuple(o for o in ops if o in ("parse", "match", "tree", "abort", "out", "lim")) or ("parse",)
            rr.append(Run(root if lr else rng.choice(roots(items)), b, enc=enc, ops=ops, ic=rng.random() < 0.1 and not lr, sess=k, same=rng.random() < 0.4))
        cases.append(Case(items, text, runs=rr, stacks=stacks, nc=rng.choice([0, 0, 1])))
    for c in longs(rng, ck.n(60, 1200), [("parse",), ("match", "tree"), ("out", "parse")], encs=[0, 0, 2]):
        c.stacks = [0]
        for w in c.runs:
            w.sess = rng.randint(0, 1)
        cases.append(c)
    run_cases(ck, cases, "session")
    # threads
    exe = build()
    jobs = []
    for _ in range(ck.n(60, 600)):
        g = RefGen(rng, "ab", ("a", "b", "c"))
        if rng.random() < 0.3:
            items, text, root, inp = lr_cases(rng, 1)[0]
            js = [(root, 0, inp)] + [(root, 0, lr2.encode()) for lr2 in [Gen(rng, "abnx", ("e",)).text(items, root, 8) for _ in range(3)]]
        else:
            items = g.grammar(nrules=3, anon=0.1, d=rng.choice([1, 2]))
            if rng.random() < 0.5:
                items = with_dirs(rng, items, g.names, ("abort", "noemit"), 1)
            text = Render(rng).grammar(items)
            js = []
            for _ in range(4):
                root = rng.choice(roots(items))
                s = g.text(items, root, 9)
                enc = rng.choice([0, 2])
                js.append((root, enc, s.encode("utf-16le" if enc else "utf-8")))
        if Case(items, text, runs=[Run(r, b, enc=e) for r, e, b in js]).cheap():
            jobs.append((items, text, js))
    K = 8

    def line(j):
        items, text, js = j
        return setup(text) + ";thr 0 %d %d %d %s" % (ck.n(150, 1500), K, len(js), " ".join("%d %d %s" % (r, e, hx(b)) for r, e, b in js))
    res = run_lines(exe, [line(j) for j in jobs], timeout=60, shards=2)
    cs, own = [], []
    for j, (r, why) in zip(jobs, res):
        items, text, js = j
        rep = {"grammar": text, "jobs": [[a, b, c.hex()] for a, b, c in js], "threads": K, "line": line(j)}
        if r is None:
            ck.violation("threads: %s on %r" % (why, text), dict(rep, why=why))
            continue
        for t, th in enumerate(r[8]):
            if th["bad"]:
                ck.violation("threads: one thread got different answers to the same call: %r" % text, dict(rep, thread=t, answers=th))
            for (root, enc, b), o in zip(js, th["r"]):
                cs.append({"items": items, "inp": list(b), "from": 0, "enc": enc, "ic": False, "root": root + 1, "scan": False,
                           "obs": [{"op": "parse", "v": o[0], "recs": o[1]}]})
                own.append((j, t, o))
    uniq = {}
    for c, o in zip(cs, own):
        uniq.setdefault(json.dumps(c), []).append(o)
    keys = list(uniq)
    rej, st = judge("RpaJudge", [json.loads(k) for k in keys])
    ck.add(st)
    ck.ntraces += len(cs)
    for i in rej[:20]:
        j, t, o = uniq[keys[i]][0]
        ck.violation("threads: thread %d of %d got %s on %r" % (t, K, json.dumps(o)[:200], j[1]),
                     {"grammar": j[1], "line": line(j), "thread": t, "observed": o, "required": st["explain"].get(i)})
    ck.notes["thread_runs"] = len(jobs) * K
    ck.assumptions = ["up to 9 calls on 3 sessions; 8 threads, schedules as the machine gives them"]


CHECKS["A13"] = a13


# ------------------------------------------------------------------ A12
DEEP = 'a ::= x <a> | y\n'


class NCase:
    """Records of a parse (or of two, one after the other) and navigation calls on them."""

    def __init__(self, text, root, inputs, calls):
        self.text, self.root, self.inputs, self.calls = text, root, inputs, calls

    def line(self):
        l = setup(self.text)
        for k, b in enumerate(self.inputs):
            l += ";%s 0 %d 0 %s" % ("parsea" if k else "parse", self.root, hx(b))
        l += ";recs 0"
        for c in self.calls:
            l += ";%s 0 %s" % (c[0], " ".join(str(x) for x in c[1:]))
            if c[0] == "settype":
                l += ";recs 0"
        return l

    def nrecs(self, r):
        return len(r[NSETUP + len(self.inputs)])

    def case(self, r):
        p = NSETUP + len(self.inputs)
        recs = r[p]
        p += 1
        ops = []
        for c in self.calls:
            v = r[p]
            p += 1
            if c[0] == "nav":
                ops.append({"op": "nav", "v": v})
            elif c[0] == "walk":
                ops.append({"op": "walk", "k": c[1], "v": v["v"], "rc": v["rc"]})
            elif c[0] == "rcopy":
                ops.append({"op": "copy", "k": c[1], "rc": v[0], "recs": v[1]})
            elif c[0] == "rmove":
                ops.append({"op": "move", "d": c[1], "s": c[2], "n": c[3], "rc": v[0], "recs": v[1]})
            elif c[0] == "settype":
                ops.append({"op": "set", "k": c[1], "v": c[2], "how": c[3], "recs": r[p]})
                p += 1
            elif c[0] == "gettype":
                ops.append({"op": "type", "k": c[1], "v": v})
            elif c[0] == "getuid":
                ops.append({"op": "uid", "k": c[1], "v": v})
        return {"recs": recs, "ops": ops}

    def replay(self):
        return {"grammar": self.text, "rule": self.root, "inputs": [b.hex() for b in self.inputs], "calls": self.calls, "line": self.line()}


def a12(ck):
    rng = ck.rng
    exe = build()
    cand = []
    for _ in range(ck.n(3200, 30000)):
        if rng.random() < 0.15:
            items, text, root, inp = lr_cases(rng, 1)[0]
            ins = [inp] + ([inp] if rng.random() < 0.3 else [])
        else:
            g = RefGen(rng, "ab", ("a", "b", "c"))
            items = g.grammar(nrules=rng.choice([3, 3, 4]), anon=0.1, d=rng.choice([1, 2]))
            if rng.random() < 0.4:
                items = with_dirs(rng, items, g.names, ("emitid", "noemit"), rng.choice([1, 2]))
            text = Render(rng).grammar(items)
            root = rng.choice(roots(items))
            ins = [g.text(items, root, rng.choice([6, 12])).encode() for _ in range(rng.choice([1, 1, 2]))]
        if Case(items, text, runs=[Run(root, b) for b in ins]).cheap():
            cand.append(NCase(text, root, ins, []))
    for _ in range(ck.n(6, 30)):
        d = rng.choice([3, 20, 126, 127, 128, 129, 130, 150])
        cand.append(NCase(DEEP, 0, [b"x" * d + b"y"], []))
    # how many records there are decides which calls make sense
    first = run_lines(exe, [c.line() for c in cand])
    cases = []
    for c, (r, why) in zip(cand, first):
        if r is None:
            ck.violation("navigation: %s on %r" % (why, c.text), dict(c.replay(), why=why))
            continue
        if any((x[0] if isinstance(x, list) else x) < 0 for x in r[NSETUP:NSETUP + len(c.inputs)]):
            continue            # an aborted parse leaves records that are no tree
        n = c.nrecs(r)
        if n < 2 or (n > 60 and c.text != DEEP) or (n < 6 and rng.random() < 0.7):
            continue
        k = lambda: rng.randrange(n)
        far = lambda: rng.choice([-1, n, n + 3, rng.randrange(n)])
        calls = [("nav",)] if n <= 60 else []
        for _ in range(rng.randint(4, 9)):
            x = rng.random()
            if x < 0.3:
                calls.append(("settype", far() if rng.random() < 0.15 else k(), rng.choice([1, 2, 3, 5, 0, 255, 0x40000000, 6]), rng.choice([0, 1, 1, 2, 3])))
            elif x < 0.45:
                calls.append(("gettype", far() if rng.random() < 0.2 else k()))
            elif x < 0.55:
                calls.append(("getuid", far() if rng.random() < 0.2 else k()))
            elif x < 0.7:
                calls.append(("walk", k()))
            elif x < 0.85:
                calls.append(("rcopy", k()))
            else:
                sz = rng.randint(0, n)
                s = rng.randint(0, n - sz)
                calls.append(("rmove", rng.randint(0, n), s, sz))
        if c.text == DEEP:
            calls.append(("walk", 0))
        c.calls = calls
        cases.append(c)
    res = run_lines(exe, [c.line() for c in cases])
    js, own = [], []
    for c, (r, why) in zip(cases, res):
        if r is None:
            ck.violation("navigation: %s on %r" % (why, c.text), dict(c.replay(), why=why))
            continue
        js.append(c.case(r))
        own.append(c)
    rej, st = judge("RpaTree", js)
    ck.add(st)
    ck.ntraces += len(js)
    for i in rej[:40]:
        again, why = run_one(exe, own[i].line())
        if again is not None and not judge("RpaTree", [own[i].case(again)])[0]:
            continue
        ck.violation("navigation: %r on %r" % (own[i].text, own[i].inputs), dict(own[i].replay(), observed=js[i], first_wrong=st["explain"].get(i)))
    for j in js[:: max(1, len(js) // 4)]:
        ck.sample(json.dumps(j)[:2000])
    ck.notes["nodes"] = sum(len(j["recs"]) // 2 for j in js)
    ck.assumptions = ["record arrays of up to 60 records (up to 300 for walks)"]


CHECKS["A12"] = a12

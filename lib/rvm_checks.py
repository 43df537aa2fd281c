"""Checks of the virtual machine, the code generator and the scopes (V01..V04)."""
import json
from vlib import *
from rpa_checks import run_traces

M64 = (1 << 64) - 1
ALU2 = ["ADD", "ADDS", "ADC", "SUB", "SUBS", "SBC", "AND", "ORR", "XOR", "BIC", "TEQ", "MUL", "MLS", "MULS", "DIV", "DIVS", "MOD", "MODS", "DVS",
        "LSL", "LSR", "LSRS", "ASR", "ROR"]
ALU1 = ["MOV", "MOVS", "NOT", "CLZ", "INC", "DEC", "CMP", "CMN", "TST", "SWP"]
SHIFTS = ("LSL", "LSR", "LSRS", "ASR")
CORNER = [0, 1, 2, 3, 7, 10, 63, 64, 255, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, M64, M64 - 1, M64 - 2,
          0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1 << 62, 3 << 62, (1 << 32) - 2]


def limbs(w):
    return [(w >> (16 * k)) & 0xffff for k in range(4)]


def word(rng):
    k = rng.random()
    if k < 0.45:
        return rng.choice(CORNER)
    if k < 0.6:
        return (rng.choice(CORNER) + rng.randint(-3, 3)) & M64
    if k < 0.75:
        return rng.getrandbits(rng.randint(1, 64))
    if k < 0.85:
        return (-rng.getrandbits(rng.randint(1, 63))) & M64
    return rng.getrandbits(64)


def alu_case(rng, op=None, vals=None, st=None):
    op = op or rng.choice(ALU2 + ALU1)
    r = [word(rng) for _ in range(13)]
    t = [rng.choice([0, 0, 1, 2, 3]) for _ in range(13)]
    o = [rng.randrange(13) if rng.random() < 0.85 else rng.choice([0, 1]) for _ in range(3)]
    if rng.random() < 0.3:
        o[1] = o[0]
    if rng.random() < 0.2:
        o[2] = o[0]
    if rng.random() < 0.15:
        o[2] = o[1]
    data = word(rng)
    for k in (1, 2):
        if rng.random() < 0.2 and not (op == "SWP"):
            o[k] = 14
    if op in ("CMP", "CMN", "TST", "TEQ") and rng.random() < 0.1:
        o[0] = 14
    if vals:
        o = [0, 1, 2]
        r[0:3] = vals
    def setv(k, v):
        nonlocal data
        if o[k] == 14:
            data = v
        else:
            r[o[k]] = v
    if op in SHIFTS:
        setv(2, rng.choice([0, 1, 2, 31, 32, 33, 62, 63, rng.randrange(64)]))
    if op == "ROR":
        setv(2, rng.randrange(0, 200))
    if not vals and op in ("DIV", "DIVS", "MOD", "MODS", "DVS") and rng.random() < 0.1:
        setv(2, 0)
    if not vals and op in ("CMP", "SUBS", "SBC", "TEQ") and rng.random() < 0.2:
        v = word(rng)
        setv(0 if op == "CMP" else 1, v)
        setv(1 if op == "CMP" else 2, v)
    if st is None:
        st = rng.randrange(32)
    return {"k": "alu", "op": op, "o": o, "data": data, "st": st, "r": r, "t": t, "known": False}


def alu_line(c):
    return "alu %s %d %d %d %d %x %s %s" % (c["op"], c["o"][0], c["o"][1], c["o"][2], c["st"], c["data"], " ".join("%x" % v for v in c["r"]), " ".join(map(str, c["t"])))


def alu_js(c, r):
    return dict(c, data=limbs(c["data"]), r=[limbs(v) for v in c["r"]], ret=r["ret"], err=r["err"], st2=r["st"], r2=r["r"], t2=r["t"])


STORES = {"STR": 8, "STRP": 8, "STRB": 1, "STRH": 2, "STRW": 4, "LDR": 8, "LDRP": 8, "LDRB": 1, "LDRH": 2, "LDRW": 4}


def mem_case(rng):
    op = rng.choice(list(STORES) + ["STM", "LDM"])
    n = 8 * rng.randint(8, 10)
    m = [rng.randrange(256) for _ in range(n)]
    r = [word(rng) for _ in range(8)]
    mask = 0
    if op in STORES:
        o = [rng.randrange(8), rng.randrange(8)]
        if op[0] == "S" and o[0] == o[1]:
            o[0] = (o[0] + 1) % 8       # the pointer itself is not a number to compare
        base = o[1]
        off = rng.randrange(0, n - STORES[op] + 1)
    else:
        mask = rng.randrange(256)
        o = rng.sample(range(8), 2)
        base = o[0]
        if op == "STM":
            mask &= ~(1 << base)
        r[o[1]] = mask
        off = 8 * rng.randrange(0, n // 8 - bin(mask).count("1") + 1)
    return {"k": "mem", "op": op, "o": o, "base": base, "off": off, "mask": mask, "m": m, "r": r}


def mem_line(c):
    return "mem %s %d %d %d %d %s %s" % (c["op"], c["o"][0], c["o"][1], c["base"], c["off"], bytes(c["m"]).hex(), " ".join("%x" % v for v in c["r"]))


def mem_js(c, r):
    return dict(c, r=[limbs(v) for v in c["r"]], ret=r["ret"], err=r["err"], m2=r["m"], r2=r["r"])


SUBV = "subtraction-overflow-flag"


def judge_cases(ck, what, exe, cases, linef, jsf):
    res = run_lines(exe, [linef(c) for c in cases])
    js, own = [], []
    for c, (r, why) in zip(cases, res):
        if r is None:
            ck.violation("%s: %s on %s" % (what, why, linef(c)[:300]), {"line": linef(c), "why": why})
            continue
        js.append(jsf(c, r))
        own.append(c)
    rej, st = judge("RvmJudge", js, const="  W = 64")
    ck.add(st)
    ck.ntraces += len(js)
    # the known finding: as soon as one subtraction sets the overflow flag the way it describes, all of that instruction have to
    odd = {js[i]["op"] for i in rej if js[i]["k"] == "alu" and js[i]["op"] in ("SUBS", "SBC", "CMP")}
    if odd:
        idx = [i for i, j in enumerate(js) if j["op"] in odd]
        for i in idx:
            own[i] = dict(own[i], known=True)
            js[i] = dict(js[i], known=True)
        r2, st2 = judge("RvmJudge", [js[i] for i in idx], const="  W = 64")
        ck.add(st2)
        st["explain"].update({idx[k]: v for k, v in st2["explain"].items()})
        bad = {idx[k] for k in r2}
        if not bad:
            ck.violation("overflow flag of subtractions", {"key": SUBV, "case": js[idx[0]]})
        rej = [i for i in rej if js[i]["op"] not in odd] + sorted(bad)
    for i in rej[:40]:
        r, why = run_one(exe, linef(own[i]))
        if r is not None and not judge("RvmJudge", [jsf(own[i], r)], const="  W = 64")[0]:
            continue
        ck.violation("%s: %s answers %s, the specification wants %s" % (what, linef(own[i])[:300], json.dumps(r)[:300], st["explain"].get(i, "")[:300]),
                     {"line": linef(own[i]), "case": js[i], "tlc": st["explain"].get(i)})
    for j in js[:: max(1, len(js) // 3)]:
        ck.sample(json.dumps(j)[:400])
    return js


def v01(ck):
    rng = ck.rng
    for w in ck.n([2, 3, 4], [2, 3, 4, 5, 6]):
        _, st = modelcheck("RvmAluMC", "SPECIFICATION Spec\nCONSTANT W = %d\nINVARIANTS Adding Subtracting Comparing Multiplying Dividing Shifting Counting Bits Chain\n" % w)
        ck.add(st)
    exe = build_harness("rvm_h.c")
    cases = []
    for op in ALU2 + ALU1:      # all pairs of corner values
        pool = CORNER if not ck.quick else [0, 1, M64, 1 << 63, (1 << 63) - 1] + rng.sample(CORNER, 3)
        for x in pool:
            for y in pool:
                cases.append(alu_case(rng, op, [x, y, y] if op in ALU1 else [rng.choice(CORNER), x, y]))
    for _ in range(ck.n(3000, 100000)):
        cases.append(alu_case(rng))
    # chains of additions and subtractions through the carry: as programs of full words
    judge_cases(ck, "instruction", exe, cases, alu_line, lambda c, r: alu_js(c, r[0]))
    mems = [mem_case(rng) for _ in range(ck.n(2000, 40000))]
    judge_cases(ck, "load/store", exe, mems, mem_line, lambda c, r: mem_js(c, r[0]))
    ck.notes["instructions"] = len(cases)
    ck.notes["loads_and_stores"] = len(mems)


# ------------------------------------------------------------------ programs
FP, SP, LR, PC, DA, XX = 10, 11, 12, 13, 14, 15
CODE, MEM = 2000000, 3000000
DT = {"u": 0, "l": 1, "p": 2, "m": 2, "b": 3, "f": 13, "s": 14, "h": 15}
CONDS = ["", "EQ", "NEQ", "LES", "LEQ", "GRE", "GEQ"]


def ins(op, a=XX, b=XX, c=XX, k="u", v=0):
    e = {"u": v, "l": v, "b": v, "s": v, "p": CODE + v, "f": CODE + v, "m": MEM + v, "h": 0}[k]
    return {"op": op, "o": [a, b, c], "v": e, "t": 0 if op == "SWI" else DT[k], "txt": "%s,%d,%d,%d,%s,%d" % (op, a, b, c, k, v)}


def prog_line(c, mode):
    return "prog %d %d %d %d %s" % (mode, c["size"], c["off"], min(c["size"], 40), " ".join(i["txt"] for i in c["prog"]))


def small(rng):
    return rng.choice([0, 1, 2, 3, -1, 5, rng.randint(-9, 40), rng.randint(0, 7)])


def rand_ins(rng, n, size):
    """any instruction at all; the driver stops where nothing is defined"""
    reg = lambda: rng.choice([0, 1, 2, 3, 4, rng.randrange(14)])
    src = lambda: rng.choice([reg(), reg(), DA])
    k = rng.random()
    if k < 0.14:
        return ins(rng.choice(["ADD", "SUB", "ADDS", "SUBS"]), reg(), rng.choice([reg(), SP, FP]), src(), "u", small(rng))
    if k < 0.22:
        kind = rng.choice("uulbpfsm")
        v = {"s": rng.choice([0, 1, 256, 257, 512, 700])}.get(kind, rng.randrange(4) if kind == "m" else rng.randrange(n) if kind in "pf" else rng.randrange(2) if kind == "b" else small(rng))
        return ins(rng.choice(["MOV", "MOV", "MOV", "MOVS"]) if kind in "ulb" else "MOV", reg(), DA, XX, kind, v)
    if k < 0.27:
        return ins(rng.choice(["MOV", "SWP", "MOVS", "TYPE"]), reg(), reg())
    if k < 0.32:
        return ins(rng.choice(["INC", "DEC", "CLR"]), reg())
    if k < 0.40:
        return ins("CMP", reg(), src(), XX, "u", small(rng))
    if k < 0.54:
        c = rng.choice(CONDS)
        if rng.random() < 0.6:
            return ins("B" + c, rng.choice([DA, DA, DA, reg()]), XX, XX, "l", rng.randint(-3, 4))
        return ins("BX" + c, rng.choice([DA, DA, DA, reg()]), XX, XX, "p", rng.randrange(-1, n - 1))
    if k < 0.60:
        return ins("BL", DA, XX, XX, "l", rng.randint(1, 4)) if rng.random() < 0.5 else ins("BXL", DA, XX, XX, "p", rng.randrange(-1, n - 1))
    if k < 0.63:
        return ins("RET") if rng.random() < 0.5 else ins("BX", LR)
    if k < 0.67:
        kind = rng.choice("fshul")
        v = {"s": rng.choice([0, 1, 256, 257, 512, 700]), "f": rng.randrange(-1, n - 1)}.get(kind, 0)
        return ins("CALL", rng.choice([DA, DA, reg()]), reg(), XX, kind, v)
    if k < 0.71:
        return ins("SWI", XX, reg(), XX, "u", rng.choice([0, 1, 256, 257, 512, 513, 1000])) if rng.random() < 0.6 else ins("SWIID", rng.choice([DA, reg()]), reg(), XX, "u", rng.choice([0, 1, 256, 257, 512]))
    if k < 0.73:
        return ins("USR", reg(), reg())
    if k < 0.83:
        o = rng.choice(["PUSH", "POP", "PUSHM", "POPM"])
        if o in ("PUSH", "POP"):
            return ins(o, src() if o == "PUSH" else rng.choice([reg(), reg(), SP, FP]), XX, XX, "u", small(rng))
        m = rng.choice([rng.randrange(256), 7168, 3 << rng.randrange(8), rng.randrange(1 << 13), 1 << rng.randrange(13), 1 << rng.randrange(8) | 1 << rng.randrange(8, 13)])
        return ins(o, DA, XX, XX, "u", m)
    if k < 0.92:
        o = rng.choice(["STS", "LDS", "ADDRS"])
        b, c = rng.choice([(SP, DA), (FP, DA), (DA, XX), (XX, DA), (reg(), DA), (reg(), reg()), (XX, reg())])
        return ins(o, reg(), b, c, "u", rng.choice([small(rng), rng.randint(0, max(1, size))]))
    if k < 0.97:
        o = rng.choice(["LDRR", "STRR", "CLRR"])
        if rng.random() < 0.6:
            v = rng.randrange(4)
            return ins(o, DA, XX, XX, "m", v) if o == "CLRR" else ins(o, reg(), DA, XX, "m", v)
        return ins(o, reg(), reg())
    return ins(rng.choice(["NOP", "SETTYPE", "CFLAG", "EXT", "ABORT"]), *{"x": (DA, DA, XX, "u", rng.choice([1, 2, 3, 7, 13, 14, 15]))}["x"]) if rng.random() < 0.5 else ins("SETTYPE", reg(), DA, XX, "u", rng.choice([0, 2, 13, 14, 15, 3]))


class Asm:
    """Structured programs: nested loops, branches and calls of functions that keep their registers on the stack."""

    def __init__(self, rng):
        self.rng, self.p, self.fix, self.lab = rng, [], [], {}

    def e(self, *a):
        self.p.append(ins(*a))

    def jump(self, op, label):
        self.fix.append((len(self.p), op, label))
        self.p.append(None)

    def here(self, label):
        self.lab[label] = len(self.p)

    def done(self):
        for at, op, l in self.fix:
            t = self.lab[l]
            if op == "CALL":
                self.p[at] = ins(op, DA, 0, XX, "f", t - 1)
            elif op.startswith("BX"):
                self.p[at] = ins(op, DA, XX, XX, "p", t - 1)
            else:
                self.p[at] = ins(op, DA, XX, XX, "l", t - at)
        return self.p

    def label(self):
        self.n = getattr(self, "n", 0) + 1
        return "l%d" % self.n

    def br(self, c, l):
        self.jump(self.rng.choice(["B", "BX"]) + c, l)

    def block(self, d, fns):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            if k < 0.3 or d == 0:
                self.e(rng.choice(["ADD", "SUB", "ADDS", "SUBS"]), rng.randrange(3), rng.randrange(3), DA, "u", rng.randrange(4))
            elif k < 0.5:       # if / else
                a, b = self.label(), self.label()
                self.e("CMP", rng.randrange(3), DA, XX, "u", rng.randrange(-1, 5))
                self.br(rng.choice(CONDS[1:]), a)
                self.block(d - 1, fns)
                self.br("", b)
                self.here(a)
                self.block(d - 1, fns)
                self.here(b)
            elif k < 0.65:      # counted loop, counter on the stack
                a = self.label()
                self.e("PUSH", 4)
                self.e("MOV", 4, DA, XX, "u", rng.randint(1, 3))
                self.here(a)
                self.block(d - 1, fns)
                self.e("SUBS", 4, 4, DA, "u", 1)
                self.br(rng.choice(["NEQ", "GRE"]), a)
                self.e("POP", 4)
            elif k < 0.85 and fns:
                self.jump(rng.choice(["BL", "BXL", "CALL"]), rng.choice(fns))
            elif k < 0.92:
                v = rng.randrange(3)
                self.e("PUSH", v)
                self.block(d - 1, fns)
                self.e("POP", rng.choice([v, rng.randrange(3)]))
            else:
                self.e("SWI", XX, rng.randrange(3), XX, "u", rng.choice([0, 1, 256, 257]))

    def program(self):
        rng = self.rng
        n = rng.randint(0, 3)
        names = ["f%d" % k for k in range(n)]
        self.br("", "main")
        for k, f in enumerate(names):
            rec = rng.random() < 0.4
            self.here(f)
            m = 7168 | rng.choice([0, 16, 24, 0xf8])
            self.e("PUSHM", DA, XX, XX, "u", m)
            self.e("MOV", FP, SP)
            nl = rng.randint(0, 3)
            if nl:
                self.e("ADD", SP, SP, DA, "u", nl)
                self.e("STS", 0, FP, DA, "u", rng.randint(1, nl))
            if rec:             # down to zero in r3
                l = self.label()
                self.e("SUBS", 3, 3, DA, "u", 1)
                self.br(rng.choice(["LES", "LEQ"]), l)
                self.jump("BL", f)
                self.here(l)
            self.block(1, names[:k])
            if nl:
                self.e("LDS", rng.randrange(3), FP, DA, "u", rng.randint(1, nl))
            self.e("MOV", SP, FP)
            self.e("POPM", DA, XX, XX, "u", m)
            self.e(*rng.choice([("RET",), ("BX", LR)]))
        self.here("main")
        self.e("MOV", 3, DA, XX, "u", rng.randint(0, 4))
        self.block(2, names)
        self.e("EXT")
        return self.done()


def prog_cases(ck, what, exe, cases):
    lines = [prog_line(c, 1) for c in cases]
    res = run_lines(exe, lines)
    again, js, own = [], [], []
    for c, l, (r, why) in zip(cases, lines, res):
        if r is None:
            ck.violation("%s: %s on %s" % (what, why, l[:300]), {"line": l, "why": why})
            continue
        c["obs"] = [r[0]]
        c["ln"] = l
        if r[0]["err"] not in (77, 11):
            again.append(c)
        own.append(c)
    l2 = [prog_line(c, 0) + ";" + prog_line(c, 2) for c in again]
    for c, l, (r, why) in zip(again, l2, run_lines(exe, l2)):
        if r is None:
            ck.violation("%s: %s on %s" % (what, why, l[:300]), {"line": l, "why": why})
            continue
        c["obs"] = c["obs"] + r
        c["ln"] += ";" + l
    mk = lambda c, obs: {"k": "prog", "prog": [{k: v for k, v in i.items() if k != "txt"} for i in c["prog"]], "off": c["off"], "size": c["size"], "obs": obs}
    js = [mk(c, c["obs"]) for c in own]
    rej, st = judge("RvmJudge", js, const="  W = 64")
    ck.add(st)
    ck.ntraces += sum(len(j["obs"]) for j in js)
    for i in rej[:40]:
        r, why = run_one(exe, own[i]["ln"])
        if r is not None and not judge("RvmJudge", [mk(own[i], r)], const="  W = 64")[0]:
            continue
        ck.violation("%s: %s gives %s, the specification wants %s" % (what, own[i]["ln"][:300], json.dumps(r)[:300], st["explain"].get(i, "")[:400]),
                     {"line": own[i]["ln"], "case": js[i], "tlc": st["explain"].get(i)})
    for j in js[:: max(1, len(js) // 3)]:
        ck.sample(json.dumps(j)[:400])
    from collections import Counter
    cnt = Counter(c["obs"][0]["err"] for c in own)
    ck.notes.setdefault("ends", {})[what] = dict(cnt)


def swi_cases(ck, exe, n):
    """Tables of software interrupts: added, replaced, looked up by table and name or by name alone."""
    rng = ck.rng
    hist = []
    for _ in range(n):
        es, tabs = [], ["alpha", "beta", "alp", "alphabet", "g"]
        for _ in range(rng.randint(2, 14)):
            if rng.random() < 0.35:
                es.append({"op": "add", "t": rng.choice(tabs), "w": rng.randrange(3), "n": ""})
            else:
                es.append({"op": "look", "t": rng.choice(tabs + ["-"] * 5), "n": rng.choice(["one", "two", "three", "thr", "three3", "on", "ones", "t", "thre"]), "w": 0})
        hist.append(es)
    txt = lambda e: "swi add %s %d" % (e["t"], e["w"]) if e["op"] == "add" else "swi look %s %s" % (e["t"], e["n"])
    lines = [";".join(map(txt, es)) for es in hist]
    js, own = [], []
    mk = lambda es, r: {"k": "swi", "ev": [dict(e, a=a) for e, a in zip(es, r)]}
    for es, l, (r, why) in zip(hist, lines, run_lines(exe, lines)):
        if r is None:
            ck.violation("interrupt tables: %s on %s" % (why, l[:300]), {"line": l, "why": why})
            continue
        js.append(mk(es, r))
        own.append((es, l))
    rej, st = judge("RvmJudge", js, const="  W = 64")
    ck.add(st)
    ck.ntraces += len(js)
    for i in rej[:20]:
        r, why = run_one(exe, own[i][1])
        if r is not None and not judge("RvmJudge", [mk(own[i][0], r)], const="  W = 64")[0]:
            continue
        ck.violation("interrupt tables: %s answers %s" % (own[i][1][:300], json.dumps(r)[:200]), {"line": own[i][1], "case": js[i]})
    ck.notes["interrupt_tables"] = len(js)


def v02(ck):
    rng = ck.rng
    exe = build_harness("rvm_h.c")
    cases = []
    for _ in range(ck.n(4000, 60000)):
        n = rng.randint(3, 16)
        size = rng.choice([1, 2, 3, 5, 8, 17, 18, 20, 33, 64, 64])
        cases.append({"prog": [rand_ins(rng, n, size) for _ in range(n - 1)] + [ins("EXT")], "off": rng.choice([0, 0, 0, rng.randrange(n)]), "size": size})
    prog_cases(ck, "random program", exe, cases)
    cases = []
    for _ in range(ck.n(900, 20000)):
        p = Asm(rng).program()
        cases.append({"prog": p, "off": 0, "size": rng.choice([200, 200, 100, 64, 40, 30, 25])})
    prog_cases(ck, "structured program", exe, cases)
    swi_cases(ck, exe, ck.n(600, 20000))


# ---------------------------------------------------------------- V03: labels and linking
def zn(n):
    return n if n else "-"


def cg_cmd(e):
    o, n, v = e["op"], e.get("n", ""), e.get("v", 0)
    if o in ("ins", "fill", "cut", "src", "getsrc"):
        return "cg %s %d" % (o, v)
    if o in ("here", "inv", "look", "lookadd", "vfunc"):
        if o == "here" and e.get("pre"):
            return "cg heren %s %d" % (n + e["pre"], len(n))
        return "cg %s %s" % (o, zn(n))
    if o in ("num", "invnum", "labins", "label", "func"):
        return "cg %s %s %d" % (o, zn(n), v)
    if o == "off":
        return "cg off %s $%s %d %d" % (zn(n), zn(e["m"]), v, e["ty"])
    if o == "rel":
        return "cg rel %s %d" % (zn(n), e["ty"])
    if o == "relidx":
        return "cg relidx $%s %d" % (zn(n), e["ty"])
    if o in ("redef", "redefptr"):
        return "cg %s $%s %d" % (o, zn(n), v)
    if o in ("redefhere", "valid", "name"):
        return "cg %s $%s" % (o, zn(n))
    if o == "str":
        return "cg str %s %s" % (zn(n), zn(bytes(e["b"]).decode()))
    if o == "data":
        return "cg data %s %s" % (zn(n), hx(bytes(e["b"])))
    if o == "repl":
        return "cg repl %d %d" % (v, e["ty"])
    return "cg " + o


def cg_line(evs):
    return ";".join(cg_cmd(e) for e in evs)


def cg_trace(evs, r):
    t = []
    for e, x in zip(evs, r):
        d = {k: v for k, v in e.items() if k != "pre"}
        if e["op"] == "dump":
            d["code"] = x
        elif e["op"] == "link":
            d["ret"], d["err"] = x["ret"], x["err"]
        else:
            d["ret"] = x
        t.append(d)
    return t


OFFS = ["o", "oo", "od", "op"]


def cg_history(rng, n, cands=("a", "b", "c", "", "ab")):
    q, size, known, maxrel, fresh = [], 0, set(), 0, False
    code = list(cands)
    data = ["d", "d2", "dd"]
    ptrs = ["p", "q"]
    num = rng.random() < 0.3
    for _ in range(n):
        o = rng.choice(["ins", "ins", "rel", "rel", "rel", "rel", "here", "here", "label", "labins", "str", "data", "redef", "redefhere", "redefptr", "relidx", "valid",
                        "look", "lookadd", "last", "name", "size", "cut", "repl", "src", "getsrc", "func", "vfunc", "fend", "clear", "link", "link", "dump", "inv", "num", "fill", "off", "off"])
        nm = rng.choice(code)
        e = {"op": o}
        if o in ("ins", "labins"):
            e.update(n=nm if o == "labins" else "", v=rng.randint(0, 500))
            size += 1
        elif o == "fill":
            if rng.random() < 0.6:
                continue
            e["v"] = rng.choice([1, 3, 20, 70])
            size += e["v"]
        elif o in ("rel", "relidx"):
            k = rng.random()
            if k < 0.15:
                nm = rng.choice(OFFS)
                ty = rng.choice([0, 1, 2]) if OFFS.index(nm) < 2 else 0
            elif k < 0.55:
                nm, ty = nm, rng.choice([0, 1, 2, 2])
            elif k < 0.9:
                nm, ty = rng.choice(data), rng.choice([0, 3, 3, 4])
            else:
                nm, ty = rng.choice(ptrs), 0
            if o == "relidx" and nm not in known:
                continue
            e.update(n=nm, ty=ty)
            size += 1
            maxrel = size
        elif o == "here":
            e["n"] = nm
            if rng.random() < 0.3 and nm:
                e["pre"] = "xyz"[: rng.randint(1, 3)]
        elif o == "label":
            e.update(n=nm, v=rng.randint(0, size + 3))
        elif o == "str":
            e.update(n=rng.choice(data), b=list(bytes(rng.choice([48, 97, 122]) for _ in range(rng.choice([0, 1, 3, 7, 8, 9, 15])))))
        elif o == "data":
            e.update(n=rng.choice(data), b=[rng.choice([0, 0, 1, 97, 255]) for _ in range(rng.choice([0, 1, 7, 8, 9, 16, 17, 30]))])
        elif o == "off":        # a label some way behind another one
            nm = rng.choice(OFFS)
            m = rng.choice([x for x in known if x in {"o": code, "oo": ["o"], "od": data, "op": ptrs}[nm]] or [None])
            if m is None:
                continue
            e.update(n=nm, m=m, v=rng.choice([0, 1, 2, 5]), ty=int(OFFS.index(nm) < 2))
        elif o == "redef":
            e.update(n=nm, v=rng.randint(0, size + 3))
        elif o in ("redefhere", "inv"):
            e["n"] = nm if o == "redefhere" or rng.random() < 0.8 else rng.choice(OFFS)
        elif o == "redefptr":
            e.update(n=rng.choice(ptrs), v=rng.randint(1, 9999))
        elif o in ("valid", "look", "lookadd", "name"):
            e["n"] = rng.choice(code + data + ptrs + OFFS)
            if o == "lookadd":
                known.add(e["n"])
        elif o == "cut":
            if size == 0 or rng.random() < 0.5:
                continue
            e["v"] = rng.randint(maxrel, size)
            size = e["v"]
        elif o == "repl":
            if size == 0:
                continue
            rels = [k for k, x in enumerate(q) if x["op"] in ("rel", "relidx")]
            if rels or size == 0:
                continue
            e.update(v=rng.randrange(size), ty=rng.randint(0, 500))
        elif o == "src":
            e["v"] = rng.randint(0, 9)
        elif o == "getsrc":
            if size == 0 or rng.random() < 0.2:
                e["v"] = 999999
            else:
                e["v"] = rng.randrange(size)
        elif o in ("func", "vfunc"):
            e.update(n=nm, v=rng.randint(0, 5))
            size += 4
        elif o == "fend":
            size += 3
        elif o == "num":
            if not num:
                continue
            e.update(op=rng.choice(["num", "invnum"]), n=rng.choice(["x", "loop", ""]) or "x", v=rng.choice([0, 1, 12, 345]))
        elif o == "clear":
            if rng.random() < 0.8:
                continue
            size, known, maxrel = 0, set(), 0
        if o in ("here", "label", "labins", "rel", "str", "data", "inv", "func", "vfunc", "off"):
            known.add(e["n"])
        q.append(e)
        if o == "link":
            q.append({"op": "dump"})
    return q


def cg_complete(rng):
    """A program whose references are all defined in the end: links, grows past a reallocation, links again."""
    q = cg_history(rng, rng.choice([8, 15, 30]), ("a", "b"))
    last = max([k for k, e in enumerate(q) if e["op"] == "clear"] or [-1])
    names = {e["n"] for e in q[last + 1:] if e["op"] in ("rel", "relidx")}
    mid = set(rng.sample(sorted(names), rng.randint(0, len(names)))) if names else set()

    def define(n):
        if n[:1] == "d":
            return {"op": rng.choice(["str", "data"]), "n": n, "b": [rng.choice([49, 97]) for _ in range(rng.randint(0, 12))]}
        if n[:1] in ("p", "q"):
            return [{"op": "lookadd", "n": n}, {"op": "redefptr", "n": n, "v": rng.randint(1, 999)}]
        if n in OFFS:
            m = {"o": "a", "oo": "o", "od": "d", "op": "p"}[n]
            return ([] if n != "oo" else define("o")) + [x for x in [define(m)] for x in (x if isinstance(x, list) else [x])] * (n != "oo") + \
                [{"op": "off", "n": n, "m": m, "v": rng.choice([0, 1, 3]), "ty": int(OFFS.index(n) < 2)}]
        return {"op": "here", "n": n}
    for part in (mid, names - mid, {"a"} | (mid & set(rng.sample(sorted(mid), min(1, len(mid)))))):
        for n in part:
            d = define(n)
            q += d if isinstance(d, list) else [d]
            if rng.random() < 0.4:
                q.append({"op": "ins", "v": 3, "n": ""})
        q += [{"op": "link"}, {"op": "dump"}]
        if rng.random() < 0.7:
            q.append({"op": "fill", "v": rng.choice([1, 9, 40, 90])})
            if rng.random() < 0.5:
                q += [{"op": "link"}, {"op": "dump"}]
    return q


def v03(ck):
    rng = ck.rng
    exe = build_harness("rvm_h.c")
    out, st = modelcheck("RvmLinkMC", """SPECIFICATION Spec
CONSTANTS MaxCode = 2
 Big = %s
PROPERTIES Numbers Stay Known Once LinkTells Stale Append1
VIEW View
ACTION_CONSTRAINT Emit
""" % ck.n("FALSE", "TRUE"), workers=1)
    ck.add(st)

    def norm(s):
        return dict(s, labs=[dict(l, i=0 if l["i"] >= 0 else -1) for l in s["labs"]])
    seen, es = set(), []
    for x in edges(out):
        k = (json.dumps(norm(x["f"]), sort_keys=True), json.dumps(x["e"], sort_keys=True))
        if k not in seen:
            seen.add(k)
            es.append((norm(x["f"]), x["e"], norm(x["t"])))
    ck.notes["model_edges"] = len(es)
    seqs = []
    for p in tours(es, {"labs": [], "code": [], "cur": 0, "fresh": False}, maxlen=100):
        q = []
        for e in p:
            q.append({k: v for k, v in e.items()})
            if e["op"] == "link":
                q.append({"op": "dump"})
        seqs.append(q + [{"op": "dump"}])
    ck.notes["tours"] = len(seqs)
    run_traces(ck, "labels", "RvmLinkTrace", seqs, cg_line, cg_trace, exe)
    seqs = [cg_history(rng, rng.choice([6, 12, 25, 60])) for _ in range(ck.n(1200, 30000))]
    seqs += [cg_complete(rng) for _ in range(ck.n(1200, 30000))]
    seqs = [q for q in seqs if q]
    tr = run_traces(ck, "linking", "RvmLinkTrace", seqs, cg_line, cg_trace, exe)
    ck.notes["links"] = {"ok": sum(e["op"] == "link" and e["ret"] == 0 for t in tr for e in t), "missing": sum(e["op"] == "link" and e["ret"] != 0 for t in tr for e in t)}


# ---------------------------------------------------------------- V04: scopes
def sc_line(evs):
    r = []
    for e in evs:
        o = e["op"]
        if o in ("push", "pop", "n"):
            r.append("sc " + o)
        elif o in ("off", "ptr"):
            r.append("sc %s %s %d %d" % (o, e["n"] + e.get("pre", ""), e["v"], len(e["n"])))
        else:
            r.append("sc %s %s %d" % (o, e["n"] + e.get("pre", ""), len(e["n"])))
    return ";".join(r)


def sc_trace(evs, r):
    return [dict({k: v for k, v in e.items() if k != "pre"}, ret=x) for e, x in zip(evs, r)]


def v04(ck):
    rng = ck.rng
    exe = build_harness("rvm_h.c")
    out, st = modelcheck("RvmScopeMC", """SPECIFICATION Spec
CONSTANTS MaxDefs = %d
 MaxDepth = %d
PROPERTIES LookIsInnermost TipIsInnermostOnly Balanced
VIEW View
ACTION_CONSTRAINT Emit
""" % (ck.n(3, 4), ck.n(2, 3)), workers=1)
    ck.add(st)
    es = [(x["f"], x["e"], x["t"]) for x in edges(out)]
    ck.notes["model_edges"] = len(es)
    seqs = tours(es, {"defs": [], "marks": []}, maxlen=120)
    ck.notes["tours"] = len(seqs)
    run_traces(ck, "scopes", "RvmScopeTrace", seqs, sc_line, sc_trace, exe)
    seqs = []
    for _ in range(ck.n(3000, 60000)):
        pool = rng.choice([["a", "b", "ab", "abc", "ba"], ["x", "xx", "xxx"], ["v%d" % k for k in range(rng.choice([3, 30]))]])
        depth, q, w = 0, [], rng.choice([1, 1, 3])
        for _ in range(rng.choice([10, 40, 120])):
            o = rng.choice(["push"] * w + ["pop", "off", "off", "ptr", "look", "look", "tip", "tip", "n"])
            if o == "pop" and depth == 0:
                o = "look"
            depth += {"push": 1, "pop": -1}.get(o, 0)
            e = {"op": o}
            if o in ("off", "ptr", "look", "tip"):
                e["n"] = rng.choice(pool)
                if rng.random() < 0.3:
                    e["pre"] = rng.choice(["a", "xb", "c"])
            if o in ("off", "ptr"):
                e["v"] = rng.choice([0, 1, 7, 1000000, 2147483647])
            q.append(e)
        # unwind: what was visible comes back
        while depth and rng.random() < 0.8:
            q.append({"op": "pop"})
            depth -= 1
            for n in rng.sample(pool, min(3, len(pool))):
                q += [{"op": "look", "n": n}, {"op": "tip", "n": n}]
        seqs.append(q)
    run_traces(ck, "scopes", "RvmScopeTrace", seqs, sc_line, sc_trace, exe)


CHECKS = {"V01": v01, "V02": v02, "V03": v03, "V04": v04}

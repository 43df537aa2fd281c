"""Checks of rlib: containers, objects, locks, characters, strings (L01..L08)."""
import json
from vlib import *
from rpa_checks import run_traces


def model(ck, module, consts, props, init, maxlen=100, pre="PROPERTIES "):
    out, st = modelcheck(module, "SPECIFICATION Spec\n%s\n%s%s\nVIEW View\nACTION_CONSTRAINT Emit\n" % (consts, pre, props), workers=1)
    ck.add(st)
    es = [(x["f"], x["e"], x["t"]) for x in edges(out)]
    ck.notes.setdefault("model_edges", {})[module] = len(es)
    t = tours(es, init, maxlen=maxlen)
    if sum(len(p) for p in t) < len(es):
        raise MachineryError("tours of %s do not cover its transitions" % module)
    return t


def zn(n):
    return n if n else "-"


# ---------------------------------------------------------------- L01: arrays
def ar_cmd(e, c):
    o, op, i, x = e["o"], e["op"], e.get("i", 0), e.get("x", 0)
    z = e.get("z")
    h = "%s %d " % (c, o)
    if op == "new":
        return h + "new %d" % i
    if op in ("add", "push"):
        return h + ("addz" if z else "%s %d" % (op, x))
    if op in ("ins", "repl"):
        return h + ("%sz %d" % (op, i) if z else "%s %d %d" % (op, i, x))
    if op in ("setlen", "del", "expand"):
        return h + "%s %d" % (op, i)
    if op == "slotset":
        return h + "slotset %d %d" % (i, x)
    if op == "move":
        return h + "move %d %d %d" % (i, e["j"], x)
    if op == "sort":
        return h + "sort;" + h + "dump"
    return h + op


def ar_line(t):
    return ";".join(ar_cmd(e, "cr" if t["kind"] == "c" else "ar") for e in t["ev"])


def ar_trace(t, r):
    out, k = [], 0
    for e in t["ev"]:
        d = {a: b for a, b in e.items() if a != "z"}
        if e["op"] == "sort":
            k += 1
            d["list"] = r[k]
        elif e["op"] == "dump":
            d["list"] = r[k]
        else:
            d["ret"] = r[k]
        k += 1
        out.append(d)
    return {"kind": t["kind"], "ev": out}


def ar_history(rng, n, elt, big):
    lens, two = [0, 0], False
    q = [{"o": 0, "op": "new", "i": elt}]
    if rng.random() < 0.2:          # filled up first
        for _ in range(rng.choice([7, 15, 16, 17, 40, rng.randint(20, 150)])):
            q.append({"o": 0, "op": "add", "i": 0, "j": 0, "x": rng.randint(1, 30)})
            lens[0] += 1
    for _ in range(n):
        o = rng.randrange(2) if two else 0
        L = lens[o]
        op = rng.choice(["add"] * 4 + ["ins", "ins", "repl", "repl", "setlen", "rmlast", "del", "del", "move", "move", "expand", "slotset", "dump", "dump", "copy"] +
                        (["push", "pop", "last", "sort"] if elt == 4 else []))
        near = lambda: rng.choice([0, max(0, L - 1), L, L, L + 1, rng.randint(0, L + 3), rng.randint(0, L)])
        e = {"o": o, "op": op, "i": 0, "j": 0, "x": rng.choice([0, 1, 2, 3, rng.randint(0, 30)])}
        if op in ("add", "ins", "repl") and rng.random() < 0.15:
            e.update(z=1, x=0)
        if op in ("ins", "repl", "del"):
            e["i"] = near()
        if op in ("setlen", "expand"):
            e["i"] = rng.choice([near(), near(), rng.randint(0, big)])
        if op == "slotset":
            e["i"] = near()
        if op == "move":
            k = rng.randint(0, L) if rng.random() < 0.8 else rng.randint(0, L + 2)
            e.update(i=rng.randint(0, max(0, L - k)) + (rng.random() < 0.1), j=rng.randint(0, max(0, L - k)) + (rng.random() < 0.1), x=k)
        if op == "sort" and L > 40:
            continue
        if op == "copy":
            if rng.random() < 0.5:
                continue
            two = True
            lens[1 - o] = L
        if op in ("add", "push"):
            L += 1
        elif op == "ins":
            L = L + 1 if e["i"] < L else e["i"] + 1
        elif op == "repl":
            L = max(L, e["i"] + 1)
        elif op == "setlen":
            L = e["i"]
        elif op in ("rmlast", "pop"):
            L = max(0, L - 1)
        elif op == "del":
            L = L - 1 if e["i"] < L else L
        lens[o] = L
        q.append(e)
    for o in range(1 + two):
        q.append({"o": o, "op": "dump"})
    return {"kind": "a", "ev": q}


def cr_history(rng, n, elt, big):
    lens, two = [0, 0], False
    q = [{"o": 0, "op": "new", "i": elt}]
    if rng.random() < 0.2:          # filled up first
        for _ in range(rng.choice([7, 15, 16, 17, 40, rng.randint(20, 150)])):
            q.append({"o": 0, "op": "add", "i": 0, "j": 0, "x": rng.randint(1, 30)})
            lens[0] += 1
    for _ in range(n):
        o = rng.randrange(2) if two else 0
        L = lens[o]
        op = rng.choice(["add"] * 5 + ["repl", "repl", "setlen", "inc", "expand", "slotset", "dump", "dump", "copy"])
        near = lambda: rng.choice([0, max(0, L - 1), L, L + 1, (L // 16) * 16 + rng.choice([0, 15, 16, 17]), rng.randint(0, L + 3), rng.randint(0, L)])
        e = {"o": o, "op": op, "i": 0, "j": 0, "x": rng.choice([0, 1, 2, 3, rng.randint(0, 30)])}
        if op in ("add", "repl") and rng.random() < 0.15:
            e.update(z=1, x=0)
        if op in ("repl", "slotset"):
            e["i"] = near()
        if op in ("setlen", "expand"):
            e["i"] = rng.choice([near(), near(), rng.randint(0, big)])
        if op == "copy":
            if rng.random() < 0.5:
                continue
            two = True
            lens[1 - o] = L
        lens[o] = L + 1 if op in ("add", "inc") else e["i"] if op == "setlen" else L
        q.append(e)
    for o in range(1 + two):
        q.append({"o": o, "op": "dump"})
    return {"kind": "c", "ev": q}


ELTS = [1, 2, 3, 4, 4, 8, 12, 16, 24, 40, 64]


def l01(ck):
    rng = ck.rng
    exe = build_harness("rlib_h.c")
    ts = model(ck, "RlArrayMC", "CONSTANT MaxLen = %d" % ck.n(3, 4), "InsertDelete ReplaceOne DeleteIsMove OutOfRange NeverUsedIsZero Used", {"v": [], "hw": 0}, 80)
    seqs = []
    for p in ts:
        q = [{"o": 0, "op": "new", "i": 4}]
        for e in p:
            q.append(dict(e, o=0))
            q.append({"o": 0, "op": "dump"})
        seqs.append({"kind": "a", "ev": q})
    run_traces(ck, "array", "RlArrayTrace", seqs, ar_line, ar_trace, exe)
    seqs = []
    for _ in range(ck.n(1000, 25000)):
        big = rng.choice([8, 8, 8, 40, 300])
        seqs.append((ar_history if rng.random() < 0.6 else cr_history)(rng, rng.choice([8, 20, 40]), rng.choice(ELTS), big))
    for _ in range(ck.n(12, 300)):
        seqs.append((ar_history if rng.random() < 0.5 else cr_history)(rng, 30, rng.choice(ELTS), 2500))
    run_traces(ck, "array", "RlArrayTrace", seqs, ar_line, ar_trace, exe)


# ---------------------------------------------------------------- L02: hash tables and maps
def hs_line(q):
    r = []
    for e in q:
        o = e["op"]
        if o == "new":
            r.append("hs new %d %d" % (e["kind"], e["bits"]))
        elif o in ("ins", "insobj"):
            r.append("hs %s %s %d" % (o, zn(e["k"]), e["v"]))
        elif o == "remall":
            r.append("hs remall")
        else:
            r.append("hs %s %s" % (o, zn(e["k"])))
    return ";".join(r)


def plain_trace(q, r):
    return [dict(e, ret=x) for e, x in zip(q, r)]


def mp_line(q):
    r = []
    for e in q:
        o, how = e["op"], e.get("how", "")
        if o == "new":
            r.append("mp new %d %d" % (e["elt"], e["bits"]))
        elif o in ("add", "look", "tail"):
            k = e["k"]
            v = " %d" % e["v"] if o == "add" else ""
            if how == "l":
                r.append("mp %sl %s%s" % (o, k, v))
            elif how == "d":
                r.append("mp %sd %s%s" % (o, k, v))
            elif how == "n":
                r.append("mp %sn %s%s %d" % (o, k + e["pre"], v, len(k)))
            elif how == "z":
                r.append("mp addz %s" % zn(k))
            else:
                r.append("mp %s %s%s" % (o, zn(k), v))
        elif o in ("del", "next", "prev", "key", "val"):
            r.append("mp %s %d" % (o, e["i"]))
        elif o == "set":
            r.append("mp set %d %d" % (e["i"], e["v"]))
        else:
            r.append("mp " + o)
    return ";".join(r)


def mp_trace(q, r):
    return [dict({k: v for k, v in e.items() if k not in ("how", "pre")}, ret=x) for e, x in zip(q, r)]


def l02(ck):
    rng = ck.rng
    exe = build_harness("rlib_h.c")
    ts = model(ck, "RlHashMC", "CONSTANT MaxLen = %d" % ck.n(3, 4), "Buckets Gone", [], 100)
    seqs = []
    for p in ts:
        kind = rng.choice([0, 1, 3])
        seqs.append([{"op": "new", "kind": kind, "bits": 1}] + p)
    run_traces(ck, "hash", "RlHashTrace", seqs, hs_line, plain_trace, exe)
    seqs = []
    for _ in range(ck.n(900, 20000)):
        kind = rng.randrange(4)
        pool = [str(rng.choice([k, -k, k * 2 ** rng.randint(0, 40)])) for k in range(rng.choice([3, 8, 40]))] if kind == 2 else \
            ["".join(rng.choice("ab") for _ in range(rng.randint(0, 4))) for _ in range(rng.choice([3, 8]))] + ["k%d" % k for k in range(rng.choice([0, 30]))]
        q = [{"op": "new", "kind": kind, "bits": rng.choice([1, 1, 2, 3, 5])}]
        obj = rng.random() < 0.3
        for _ in range(rng.choice([8, 25, 60])):
            o = rng.choice((["insobj"] if obj else ["ins"]) * 5 + ["rem", "lookobj" if obj else "look", "look", "tail", "walk", "back", "walk"])
            if rng.random() < 0.01:
                o = "remall"
            if kind == 2:
                k = rng.choice(pool)
            else:
                k = rng.choice(pool)
            e = {"op": o, "k": k, "v": rng.randint(1, 99)}
            if obj and o == "look":
                continue
            q.append(e)
        seqs.append(q)
    run_traces(ck, "hash", "RlHashTrace", seqs, hs_line, plain_trace, exe)

    ts = model(ck, "RlMapMC", "CONSTANT MaxPlaces = %d" % ck.n(3, 4), "FreeOnce PlacesOnce OthersStay OrderStays", {"s": {"q": [], "n": 0}, "fr": []}, 100)
    seqs = []
    for p in ts:
        q = [{"op": "new", "elt": rng.choice([4, 8]), "bits": 1}]
        for e in p:
            q.append({k: v for k, v in e.items() if k != "ret"})
            if e["op"] in ("add", "del", "set"):
                q += [{"op": "walk"}, {"op": "back"}]
        seqs.append(q)
    run_traces(ck, "map", "RlMapTrace", seqs, mp_line, mp_trace, exe)
    seqs = []
    for _ in range(ck.n(1300, 30000)):
        pool = ["".join(rng.choice("ab") for _ in range(rng.randint(0, 4))) for _ in range(rng.choice([3, 8]))] + ["k%d" % k for k in range(rng.choice([0, 30]))]
        q = [{"op": "new", "elt": rng.choice([1, 4, 8, 20, 64]), "bits": rng.choice([1, 1, 2, 3, 5])}]
        n, grow = 0, rng.choice([2, 4, 8])
        for _ in range(rng.choice([8, 25, 60, 120])):
            o = rng.choice(["add"] * grow + ["del", "del", "del", "set", "look", "tail", "first", "last", "next", "prev", "key", "val", "val", "walk", "back"])
            e = {"op": o}
            if o in ("add", "look", "tail"):
                e["k"] = rng.choice(pool)
                h = rng.random()
                if h < 0.1 and o != "tail":
                    e.update(how="l", k=str(rng.choice([0, 1, -1, 12345, rng.randint(-9, 9)])))
                elif h < 0.15 and o != "tail":
                    e.update(how="d", k=rng.choice(["0.500000000000000", "-1.250000000000000", "3.000000000000000"]))
                elif h < 0.4:
                    e.update(how="n", pre=rng.choice(["a", "b", "xy"]))
                elif h < 0.45 and o == "add":
                    e.update(how="z")
                elif h < 0.5:
                    e["k"] = rng.choice(["1", "-1", "0.500000000000000"])
            if o in ("add", "set"):
                e["v"] = -1 if e.get("how") == "z" else rng.randint(0, 30)
            if o in ("del", "set", "next", "prev", "key", "val"):
                e["i"] = rng.choice([rng.randint(0, n + 1), rng.randint(0, max(0, n - 1)), 1000000])
            n += o == "add"
            q.append(e)
        q += [{"op": "walk"}, {"op": "back"}]
        seqs.append(q)
    run_traces(ck, "map", "RlMapTrace", seqs, mp_line, mp_trace, exe)


# ---------------------------------------------------------------- L03: named arrays
def na_line(q):
    r = []
    for e in q:
        o, h, n = e["op"], "na %d " % e["o"], e.get("n", "")
        pre = e.get("pre")
        if o == "new":
            r.append(h + "new %d" % e["elt"])
        elif o in ("add", "repl"):
            if e.get("z"):
                r.append(h + "addz %s" % zn(n))
            elif pre:
                r.append(h + "%sn %s %d %d" % (o, n + pre, e["v"], len(n)))
            else:
                r.append(h + "%s %s %d" % (o, zn(n), e["v"]))
        elif o in ("look", "tail"):
            r.append(h + ("%sn %s %d" % (o, n + pre, len(n)) if pre else "%s %s" % (o, zn(n))))
        elif o in ("walk", "back"):
            r.append(h + "%s %s" % (o, zn(n)))
        elif o == "get":
            r.append(h + "get %d" % e["i"])
        elif o == "set":
            r.append(h + "set %d %d" % (e["i"], e["v"]))
        else:
            r.append(h + o)
    return ";".join(r)


def na_trace(q, r):
    return [dict({k: v for k, v in e.items() if k not in ("pre", "z")}, ret=x) for e, x in zip(q, r)]


def l03(ck):
    rng = ck.rng
    exe = build_harness("rlib_h.c")
    ts = model(ck, "RlNamedMC", "CONSTANT MaxLen = %d" % ck.n(3, 4), "NamesStay OneChanges HeadTail", [], 100)
    seqs = []
    for p in ts:
        seqs.append([{"o": 0, "op": "new", "elt": rng.choice([4, 8])}] + [dict(e, o=0) for e in p] + [{"o": 0, "op": "dump"}])
    run_traces(ck, "named array", "RlNamedTrace", seqs, na_line, na_trace, exe)
    seqs = []
    for _ in range(ck.n(2500, 40000)):
        pool = ["".join(rng.choice("ab") for _ in range(rng.randint(0, 3))) for _ in range(rng.choice([2, 6]))] + ["k%d" % k for k in range(rng.choice([0, 0, 40]))]
        q = [{"o": 0, "op": "new", "elt": rng.choice([1, 4, 8, 20])}]
        n, two = [0, 0], False
        for _ in range(rng.choice([8, 25, 60])):
            o = rng.choice(["add"] * 4 + ["repl", "repl", "look", "look", "tail", "tail", "walk", "back", "get", "set", "set", "len", "dump", "copy"])
            w = rng.randrange(2) if two else 0
            e = {"o": w, "op": o, "n": rng.choice(pool), "i": 0, "v": rng.randint(0, 30)}
            if o in ("add", "repl", "look", "tail") and rng.random() < 0.4:
                e["pre"] = rng.choice(["a", "b", "xx"])
            if o == "add" and rng.random() < 0.1:
                e.update(z=1, v=0)
            if o in ("get", "set"):
                e["i"] = rng.choice([0, max(0, n[w] - 1), n[w], rng.randint(0, n[w] + 2)] + ([-1] if o == "set" else []))
            if o == "copy":
                if rng.random() < 0.6:
                    continue
                two = True
                n[1 - w] = n[w]
            n[w] += o == "add"
            q.append(e)
        if two and rng.random() < 0.5:      # the copy outlives its origin
            q += [{"o": 0, "op": "new", "elt": 4, "n": "", "i": 0, "v": 0}]
            q += [{"o": 1, "op": x, "n": rng.choice(pool), "i": 0, "v": 0} for x in ("look", "tail", "walk", "dump")]
        q.append({"o": 0, "op": "dump"})
        seqs.append(q)
    run_traces(ck, "named array", "RlNamedTrace", seqs, na_line, na_trace, exe)


# ---------------------------------------------------------------- L04, L05: schedules
_sched = {}


def build_sched():
    if "exe" in _sched:
        return _sched["exe"]
    import vlib
    objs = []
    for f in ("rref", "rspinlock", "ratomic", "robject", "rlist"):
        src = os.path.join(vlib.REPO, "rlib", f + ".c")
        o = os.path.join(scratch(), "sched-%s.o" % f)
        r = sh(["gcc", "-c", "-w", "-O1", "-g", "-fsanitize=thread", "-D_GNU_SOURCE", "-I" + vlib.REPO, "-I" + vlib.REPO + "/arch/unix", src, "-o", o])
        if r.returncode:
            raise MachineryError("compile failed: %s\n%s" % (src, r.stderr.decode(errors="replace")[-2000:]))
        objs.append(o)
    _sched["exe"] = build_harness("sched_h.c", flags=["-O1", "-g", "-fno-builtin"], tag="sched", srcs=objs, uselib=False)
    return _sched["exe"]


def sched(ck, kind, programs, bound, maxruns, rnd):
    """programs: lists of operation lists, one per thread. Every distinct history has to be one RlSync allows."""
    exe = build_sched()
    lines = ["kind %s;%s;go %d %d %d %d" % (kind, ";".join("th " + " ".join(t) for t in ths), bound, maxruns, rnd, ck.seed * 1000 + n) for n, ths in enumerate(programs)]
    tr, own, runs = [], [], 0
    for ths, l, (r, why) in zip(programs, lines, run_lines(exe, lines, timeout=ck.n(60, 600))):
        if r is None:
            ck.violation("%s: %s on %s" % (kind, why, l), {"line": l, "why": why})
            continue
        runs += r[-1]["runs"]
        for h in r[-1]["h"]:
            tr.append({"kind": kind, "threads": len(ths), "ev": h})
            own.append(l)
    bad, st = tracecheck("RlSyncTrace", tr)
    ck.add(st)
    ck.ntraces += len(tr)
    ck.notes.setdefault("schedules_run", {})[kind] = runs
    ck.notes.setdefault("distinct_histories", {})[kind] = len(tr)
    for i in bad[:40]:
        r, why = run_one(exe, own[i], timeout=ck.n(60, 600))
        if r is not None and tr[i]["ev"] not in r[-1]["h"]:
            continue
        ck.violation("%s: no order of the calls explains %s of %s" % (kind, json.dumps(tr[i]["ev"])[:300], own[i]), {"line": own[i], "trace": tr[i]})
    for j in tr[:: max(1, len(tr) // 4)]:
        ck.sample(json.dumps(j)[:500])


def spin_model(ck):
    out, st = modelcheck("RlSpinMC", "SPECIFICATION Spec\nCONSTANTS Threads = {a, b%s}\n MaxHold = 2\nINVARIANTS Mutex Counted Once NoTouch\nPROPERTIES GetsIn\n" % ck.n("", ", c"))
    ck.add(st)


def ref_prog(rng, n):
    have, p = 1, []
    for _ in range(n):
        o = rng.choice(["I", "D", "D", "G"])
        if have == 0:
            break
        have += {"I": 1, "D": -1}.get(o, 0)
        p.append(o)
    while have:
        p.append("D")
        have -= 1
    return p


# histories of objects and collectors
def ob_line(q):
    return ";".join(" ".join(["ob", e["op"]] + [str(e[k]) for k in ("id", "g", "c") if k in e]) for e in q)


def ob_trace(q, r):
    return [dict(e, ret=x[0], gone=x[1]) for e, x in zip(q, r)]


def ob_history(rng, n):
    q, live, nid = [], {}, 0

    def closure(i):
        s = {i}
        while True:
            t = s | {j for j, x in live.items() if x["g"] in s}
            if t == s:
                return s
            s = t
    for _ in range(n):
        o = rng.choice(["ref", "ref", "kref", "obj", "gc", "inc", "inc", "dec", "dec", "dec", "get", "add", "add", "add", "remove", "destroy", "collect", "where", "copy", "type", "kind", "count"])
        refs = [i for i, x in live.items() if x["k"] == "ref"]
        gcs = [i for i, x in live.items() if x["k"] == "gc"]
        e = {"op": o}
        if o in ("ref", "kref", "obj", "gc"):
            if o == "gc" and len(gcs) > 3:
                continue
            nid += 1
            e["id"] = nid
            if o == "ref":
                e["c"] = rng.choice([1, 1, 2, 5])
            if o == "kref":
                e["c"] = rng.randrange(2)
            live[nid] = {"k": "ref" if o == "kref" else o, "n": e["c"] if o == "ref" else 1, "g": 0}
        elif o in ("inc", "dec", "get", "copy", "type", "kind"):
            if not refs:
                continue
            i = e["id"] = rng.choice(refs)
            if o == "inc":
                live[i]["n"] += 1
            if o == "type":
                e["c"] = rng.randrange(2)
            if o == "dec":
                live[i]["n"] -= 1
                if live[i]["n"] == 0:
                    del live[i]
            if o == "copy":
                nid += 1
                e["c"] = nid
                live[nid] = {"k": "ref", "n": 1, "g": 0}
        elif o == "add":
            free = [i for i, x in live.items() if x["g"] == 0]
            if not free or not gcs:
                continue
            e.update(id=rng.choice(free), g=rng.choice(gcs))
            if e["g"] in closure(e["id"]):
                continue
            live[e["id"]]["g"] = e["g"]
        elif o in ("remove", "destroy", "where"):
            if not live:
                continue
            e["id"] = rng.choice(list(live))
            if o == "remove":
                live[e["id"]]["g"] = 0
            if o == "destroy":
                for i in closure(e["id"]):
                    del live[i]
        elif o in ("collect", "count"):
            if not gcs:
                continue
            e["id"] = rng.choice(gcs)
            if o == "collect":
                for i in closure(e["id"]) - {e["id"]}:
                    del live[i]
        q.append(e)
    return q


def ls_line(q):
    return ";".join("ls %d %s %d %d" % (e["o"], e["op"], e["x"], e["y"]) for e in q)


def ls_history(rng, n):
    q, l = [], [[], []]
    for _ in range(n):
        o = rng.randrange(2)
        op = rng.choice(["addh", "addt", "addafter", "addh", "addt", "addafter", "del", "next", "prev", "first", "last", "count", "empty", "splice", "spliceat", "walk", "back", "walk", "back"])
        e = {"o": o, "op": op, "x": 0, "y": 0}
        s = l[o]
        if op.startswith("add"):
            free = [x for x in range(1, 40) if x not in l[0] and x not in l[1]]
            if not free or op == "addafter" and not s:
                continue
            x = e["x"] = rng.choice(free)
            if op == "addafter":
                e["y"] = rng.choice(s)
                s.insert(s.index(e["y"]) + 1, x)
            else:
                s.insert(0 if op == "addh" else len(s), x)
        elif op in ("del", "next", "prev", "spliceat"):
            if not s:
                continue
            x = e["x"] = rng.choice(s)
            if op == "del":
                s.remove(x)
        if op in ("splice", "spliceat"):
            if rng.random() < 0.6:
                continue
            k = s.index(e["x"]) + 1 if e["x"] else 0
            s[k:k] = l[1 - o]
            l[1 - o].clear()
        q.append(e)
    return q + [{"o": o, "op": w, "x": 0, "y": 0} for o in (0, 1) for w in ("walk", "back")]


def l04(ck):
    rng = ck.rng
    spin_model(ck)
    progs = [[["D"], ["D"]], [["I", "D", "D"], ["D"]], [["I", "D", "D"], ["I", "D", "D"]], [["D"], ["D"], ["D"]], [["G", "D"], ["D"]], [["I", "D", "D"], ["D"], ["D"]]]
    sched(ck, "ref", progs + [[ref_prog(rng, rng.randint(1, 3)) for _ in range(rng.choice([2, 2, 3]))] for _ in range(ck.n(18, 200))], ck.n(2, 3), ck.n(4000, 60000), ck.n(400, 4000))
    exe = build_harness("rlib_h.c")
    ts = model(ck, "RlObjMC", "CONSTANTS MaxId = %d\n MaxCount = 2" % ck.n(3, 4), "GoneOnce Held Collected OnlyOnes", {"s": [], "n": 0}, 200)
    run_traces(ck, "objects", "RlObjTrace", [[{k: v for k, v in e.items() if v != -1} for e in p] for p in ts], ob_line, ob_trace, exe)
    seqs = [q for q in (ob_history(rng, rng.choice([10, 30, 80])) for _ in range(ck.n(1500, 30000))) if q]
    run_traces(ck, "objects", "RlObjTrace", seqs, ob_line, ob_trace, exe)
    ts = model(ck, "RlListMC", "CONSTANT MaxId = %d" % ck.n(3, 4), "OneList NoneLost", [[], []], 200)
    run_traces(ck, "lists", "RlListTrace", [p + [{"o": o, "op": w, "x": 0, "y": 0} for o in (0, 1) for w in ("walk", "back")] for p in ts], ls_line, plain_trace, exe)
    run_traces(ck, "lists", "RlListTrace", [ls_history(rng, rng.choice([10, 30, 60])) for _ in range(ck.n(500, 10000))], ls_line, plain_trace, exe)


def l05(ck):
    rng = ck.rng
    spin_model(ck)
    one, tr = ["L", "C", "U"], ["T", "K", "V"]
    progs = [[one, one], [one + one, one], [tr, one], [tr, tr], [one, one, one], [tr, one, tr], [["L", "C", "C", "U"], tr + tr], [one + tr, tr + one]]
    for _ in range(ck.n(10, 150)):
        progs.append([sum((rng.choice([one, tr]) for _ in range(rng.randint(1, 2))), []) for _ in range(rng.choice([2, 3]))])
    sched(ck, "spin", progs, ck.n(2, 3), ck.n(4000, 60000), ck.n(400, 4000))
    ops = ["a1", "a5", "s1", "s3", "x7", "x0", "c1", "c105", "c507", "c701", "g", "w9", "w1"]
    progs = [[["a1", "a1"], ["a1", "a1"]], [["a5"], ["s3"], ["x7"]], [["c1", "c102"], ["c1", "c203"]], [["x1", "x2"], ["x3"]], [["a5", "g"], ["w9", "g"]]]
    progs += [[[rng.choice(ops) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([2, 2, 3]))] for _ in range(ck.n(40, 500))]
    sched(ck, "atom", progs, ck.n(2, 3), ck.n(3000, 30000), ck.n(200, 2000))
    # threads of the processor
    exe = build_harness("rlib_h.c", flags=["-O2", "-g"], tag="o2")
    lines = ["st %s %d %d" % (w, n, k) for w in ("add", "sub", "cas", "xchg", "lock", "try", "ref") for n, k in ((2, ck.n(60000, 1000000)), (4, ck.n(30000, 500000)), (8, ck.n(10000, 200000)))]
    cases = [{"what": l.split()[1], "threads": int(l.split()[2]), "each": int(l.split()[3])} for l in lines]
    js, own = [], []
    for c, l, (r, why) in zip(cases, lines, run_lines(exe, lines, timeout=40, shards=1)):
        if r is None:
            ck.violation("threads: %s on %s" % (why, l), {"line": l, "why": why})
            continue
        js.append(dict(c, obs=r[0]))
        own.append(l)
    rej, st = judge("RlStress", js)
    ck.add(st)
    ck.ntraces += len(js)
    for i in rej:
        ck.violation("threads: %s gives %s" % (own[i], json.dumps(js[i]["obs"])), {"line": own[i], "case": js[i]})



def judge_lines(ck, what, module, exe, lines, mk, timeout=20):
    """mk(n, answer) -> cases of line n. Runs the lines, judges the cases, runs rejected ones again."""
    cases, own = [], []
    for n, (r, why) in enumerate(run_lines(exe, lines, timeout=timeout)):
        if r is None:
            ck.violation("%s: %s on %s" % (what, why, lines[n][:200]), {"line": lines[n], "why": why})
            continue
        for c in mk(n, r):
            cases.append(c)
            own.append(n)
    rej, st = judge(module, cases)
    ck.add(st)
    ck.ntraces += len(cases)
    for i in rej[:40]:
        r, why = run_one(exe, lines[own[i]], timeout)
        if r is not None and cases[i] not in mk(own[i], r):
            continue
        ck.violation("%s: the specification refuses %s (wants %s)" % (what, json.dumps(cases[i])[:300], st["explain"].get(i, "")[:200]), {"line": lines[own[i]], "case": cases[i]})
    for c in cases[:: max(1, len(cases) // 4)]:
        ck.sample(json.dumps(c)[:400])


# ---------------------------------------------------------------- L06: the memory account
MEM = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-DR_DEBUG_MEMALLOC"]


def mm_line(q):
    return "mm reset 0 0 0;" + ";".join("mm %s %d %d %d" % (e["op"], e["id"], e["n"], e["z"]) for e in q)


def mm_trace(q, r):
    return [dict(e, ret=x) for e, x in zip([{"op": "start", "id": 0, "n": 0, "z": 0}] + q, r)]


def mm_history(rng, n):
    q, live = [], {}
    for _ in range(n):
        op = rng.choice(["mal", "zm", "cal", "mal", "re", "re", "re", "free", "free", "free", "none", "reset"] if len(live) < 20 else ["free", "re"])
        e = {"op": op, "id": rng.randint(1, 40), "n": rng.choice([0, 1, 7, 8, 9, 16, 100, rng.randint(0, 5000)]), "z": 0}
        if op in ("mal", "zm", "cal") and e["id"] in live:
            continue
        if op == "cal":
            e["n"], e["z"] = rng.choice([(1, 1), (0, 4), (3, 0), (0, 0), (3, 8), (5, 3), (1, 100), (100, 2), (rng.randint(0, 60), rng.randint(1, 60))])
        if op == "free":
            if not live:
                continue
            e["id"], e["n"] = rng.choice(list(live)), 0
            del live[e["id"]]
        elif op in ("mal", "zm", "cal", "re"):
            if op == "re" and live and rng.random() < 0.7:
                e["id"] = rng.choice(list(live))
            live[e["id"]] = 1
        else:
            e.update(id=0, n=0)
        q.append(e)
    return q + [{"op": "free", "id": i, "n": 0, "z": 0} for i in live] + [{"op": "reset", "id": 0, "n": 0, "z": 0}]


def l06(ck):
    import lines as L
    import sys
    rng = ck.rng
    vlib_env = ENV
    exe = build_harness("rlib_h.c", flags=MEM, tag="memdbg")
    ts = model(ck, "RlMemMC", "CONSTANT MaxId = 2", "AtLeast BackAgain Alone MaxStays", {"b": [0, 0], "max": 0}, 150)
    run_traces(ck, "account", "RlMemTrace", ts, mm_line, mm_trace, exe)
    run_traces(ck, "account", "RlMemTrace", [mm_history(rng, rng.choice([10, 40, 100])) for _ in range(ck.n(400, 10000))], mm_line, mm_trace, exe)
    ls = ["st mem %d %d" % x for x in ((2, ck.n(20000, 300000)), (8, ck.n(6000, 100000)))]
    judge_lines(ck, "threads", "RlStress", build_harness("rlib_h.c", flags=["-O2", "-g", "-DR_DEBUG_MEMALLOC"], tag="memo2"), ls,
                lambda n, r: [{"what": "mem", "threads": int(ls[n].split()[2]), "each": int(ls[n].split()[3]), "obs": r[0]}], timeout=60)
    # whole histories of every component
    mods = [sys.modules[m] for m in ("rpa_checks", "rvm_checks", "rlib_checks", "rex_checks") if m in sys.modules]
    ids = sorted(c for m in mods for c in m.CHECKS if c not in ("L04", "L05", "L06", "L07", "X01", "X05"))
    got = L.collect(ids, mods, ck.seed, ck.n(130, 3000), ck.n(6, 1))
    byexe = {}
    for c, x, l in got:
        byexe.setdefault(x, []).append(l)
    ck.notes["component_histories"] = {c: sum(1 for g in got if g[0] == c) for c in ids}
    ENV["H_MEM"] = "1"
    try:
        for x, ls in sorted(byexe.items()):
            judge_lines(ck, "account", "RlMemLife", build_harness(x, flags=MEM, tag="memdbg"), ls, lambda n, r: [{"a": r[1]}], timeout=60)
    finally:
        del ENV["H_MEM"]


# ---------------------------------------------------------------- L07: characters
def l07(ck):
    rng = ck.rng
    exe = build_harness("rlib_h.c")
    out, st = modelcheck("UtfMC", "SPECIFICATION Spec\nCONSTANTS Step = 512\n Top = %d\n Bs = {0, 65, 127, 128, 159, 191, 192, 193, 194, 216, 220, 223, 224, 237, 239, 240, 244, 245, 255}\nINVARIANTS Inverse Involution Inside\n" % ck.n(140000, 1115000))
    ck.add(st)
    spans = [(f, 512) for f in range(0, 0x110400, 512)]
    lines, meta = [], []
    for e in (0, 2):
        for f, n in spans:
            lines.append("uc back %d %d %d" % (e, f, n))
            meta.append({"k": "back", "enc": e, "from": f})
        for f in [0, 64, 0x780, 0x7e0, 0xd7f0, 0xdff0, 0xfff0, 0x10fff0] + [rng.randrange(0x110000) for _ in range(ck.n(60, 4000))]:
            for z in (0, 1, 2, 3, 4, 5, 8):
                lines.append("uc enc %d %d %d %d" % (e, f, 32, z))
                meta.append({"k": "enc", "enc": e, "from": f, "size": z})
    for f in list(range(0, 0x800, 256)) + [0xd700, 0xff00, 0x10ff00] + [rng.randrange(0x110000) for _ in range(ck.n(200, 3000))]:
        lines.append("uc case 0 %d 256" % f)
        meta.append({"k": "case", "from": f})
    edge = [0, 10, 65, 127, 128, 129, 159, 160, 191, 192, 193, 194, 215, 216, 219, 220, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 254, 255]
    small = [0, 65, 127, 128, 191, 192, 215, 216, 220, 223, 224, 255]
    seqs = [[]] + [[a] for a in range(256)] + [[a, b] for a in range(256) for b in (range(256) if ck.n(0, 1) else edge)]
    seqs += [[a, b, c] for a in edge for b in edge for c in edge]
    seqs += [[a, b, c, d] for a in edge for b in small for c in small for d in small]
    for _ in range(ck.n(8000, 400000)):
        seqs.append([rng.choice(edge) if rng.random() < 0.5 else rng.randrange(256) for _ in range(rng.randint(1, 7))])
    for e in (0, 2):
        for k in range(0, len(seqs), 256):
            q = seqs[k:k + 256]
            lines.append("uc dec %d %s" % (e, " ".join(hx(bytes(x)) for x in q)))
            meta.append({"k": "dec", "enc": e, "q": q})
    judge_lines(ck, "characters", "RlJudge", exe, lines, lambda n, r: [dict(meta[n], obs=r[0])])
    ck.notes["characters_round_trip"] = "all code points below 0x110400 in UTF-8 and UTF-16LE"
    ck.notes["byte_sequences_decoded"] = 2 * len(seqs)


# ---------------------------------------------------------------- L08: strings
def nz(t):
    return "z" if t == [-1] else hx(bytes(t))


def sg_line(q):
    r = []
    for e in q:
        o = e["op"]
        h = "sg %s %d" % (o, e["o"])
        if o == "new":
            h += " " + nz(e["t"])
        elif o in ("len", "catl"):
            h += " %s %d" % (nz(e["t"]), e["n"])
        elif o in ("cp", "ocopy"):
            h += " %d" % e["a"]
        elif o == "cat":
            h += " %d %d" % (e["a"], e["b"])
        elif o == "int":
            h += " " + bytes(e["t"]).decode()
        elif o == "dbl":
            h += " %d" % e["n"]
        r.append(h)
    return ";".join(r)


def sg_history(rng, n):
    q, has = [], set()
    text = lambda: [-1] if rng.random() < 0.05 else [rng.choice([97, 98, 255, 1, 0, 128] if rng.random() < 0.15 else [97, 98, 99, 200]) for _ in range(rng.choice([0, 1, 2, 3, 8, 30, rng.choice([31, 32, 33, 100])]))]
    size = dict()
    for _ in range(n):
        op = rng.choice(["new", "len", "len", "cp", "ocopy", "cat", "cat", "catl", "catl", "catl", "int", "dbl", "get"])
        e = {"op": op, "o": rng.randint(1, 4), "a": 0, "b": 0, "n": 0, "t": [-1]}
        if op in ("new", "len", "catl"):
            e["t"] = text()
            L = len(e["t"])
            if op == "len" or op == "catl":
                e["n"] = rng.choice([0, L, L, max(0, L - 1), L // 2, L + 1, L + 9]) if e["t"] != [-1] else rng.choice([0, 3])
        if op in ("cp", "ocopy", "cat"):
            if not has:
                continue
            e["a"], e["b"] = rng.choice(sorted(has)), rng.choice(sorted(has))
        if op in ("catl", "get") and e["o"] not in has:
            continue
        new = {"cat": size.get(e["a"], 0) + size.get(e["b"], 0), "cp": size.get(e["a"], 0), "ocopy": size.get(e["a"], 0), "catl": size.get(e["o"], 0) + e["n"]}.get(op, max(e["n"], len(e["t"])))
        if new > 400:
            continue
        if op == "int":
            v = rng.choice([0, 1, -1, 9, -10, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63, rng.randint(-2 ** 63, 2 ** 63 - 1), rng.randint(-999, 999)])
            e["t"] = list(str(v).encode())
            if rng.random() < 0.2:
                e["t"] = list((("-" if v < 0 else "") + "00" + str(abs(v))).encode())
        if op == "dbl":
            e["n"] = rng.choice([0, 1, -1, 63, 64, -64, 65, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-2 ** 30, 2 ** 30)])
        has.add(e["o"])
        size[e["o"]] = new
        q.append(e)
    return q


def l08(ck):
    rng = ck.rng
    exe = build_harness("rlib_h.c")
    ts = model(ck, "RlStrMC", "CONSTANT MaxLen = %d" % ck.n(2, 3), "NoZeroInside Others Grows Joined", [[-1]] * 4, 150)
    run_traces(ck, "strings", "RlStrTrace", [p for p in ts if p], sg_line, plain_trace, exe)
    run_traces(ck, "strings", "RlStrTrace", [q for q in (sg_history(rng, rng.choice([5, 15, 40])) for _ in range(ck.n(1500, 30000))) if q], sg_line, plain_trace, exe)
    cs = []

    def add(f, a, b=(), n=0, m=0):
        cs.append({"k": "str", "f": f, "a": list(a), "b": list(b), "n": n, "m": m})
    ab = [[]] + [[x] for x in (97, 98)] + [[x, y] for x in (97, 98) for y in (97, 98)] + [[x, y, z] for x in (97, 98) for y in (97, 98) for z in (97, 98)]
    for a in ab:
        for b in ab:
            for f in ("cmp", "str", "trim", "cat"):
                add(f, a, b)
            for n in range(0, 5):
                for f in ("ncmp", "eqn", "ncat"):
                    add(f, a, b, n)
    rt = lambda k: [rng.choice(rng.choice([[97, 98], [97, 98, 99, 65, 255, 128, 1]])) for _ in range(rng.randint(0, k))]
    for _ in range(ck.n(6000, 150000)):
        k = rng.choice([3, 8, 40])
        a, b = rt(k), rt(k)
        r = rng.random()
        if r < 0.3 and a:
            i = rng.randrange(len(a))
            b = a[i:i + rng.randint(0, 4)]
        elif r < 0.5:
            b = a[:rng.randint(0, len(a))] + rt(2)
        f = rng.choice(["cmp", "ncmp", "ncmp", "eqn", "eqn", "len", "str", "str", "chr", "trim", "dup", "ndup", "ndup", "cpy", "ncpy", "ncpy", "cat", "ncat", "rdup", "print"])
        n = rng.choice([0, 1, len(a), len(b), max(0, len(a) - 1), len(a) + 1, rng.randint(0, k + 2)])
        m = 0
        if f == "eqn" and rng.random() < 0.5:
            n = len(a)
            b = a + rt(3) if rng.random() < 0.7 else b
        if f == "len" and rng.random() < 0.05:
            a = [-1]
        if f == "chr":
            n = rng.choice([0, 97, 98, 99, 255, 128, 1])
        if f == "rdup":
            a = [rng.choice([0, 97, 255]) for _ in range(n)] if rng.random() < 0.8 else [-1]
        if f == "print":
            n, m = rng.choice([0, 7, 12345, rng.randint(0, 10 ** 9)]), rng.choice([0, 1, 2, len(a), len(a) + 1, len(a) + 2, len(a) + 20])
        add(f, a, b, n, m)
    for _ in range(ck.n(1500, 30000)):
        base = rng.choice([10, 10, 16, 16, 8, 2, 36, 0, 0])
        dig = lambda n: "".join(rng.choice("0123456789abcdefABCDEFxXzZ"[:rng.choice([2, 8, 10, 16, 22, 26])]) for _ in range(rng.randint(0, n)))
        f = rng.choice(["tol", "tol", "toul"])
        t = rng.choice(["", "", " ", "\t \n"]) + rng.choice(["", "", "", "+"] + (["-", "-"] if f == "tol" else [])) + rng.choice(["", "", "0x", "0X", "0"]) + dig(5) + rng.choice(["", "", "z", " 1", ".5", "-"])
        if base == 36 and len(t) > 5 or base in (0, 2) and "0b" in t.lower():      # too large for TLC; C23 prefix
            continue
        add(f, t.encode(), (), base)
    for _ in range(ck.n(500, 10000)):
        v = rng.randint(-30000, 30000)
        t = rng.choice(["", "", " ", "\t"]) + (("-" if v < 0 else rng.choice(["", "+"])) + str(abs(v) // 64) + ("" if v % 64 == 0 and rng.random() < 0.5 else ".%06d" % (abs(v) % 64 * 15625)))
        if rng.random() < 0.2 and "." in t:
            t = t.rstrip("0")
        add("tod", (t + rng.choice(["", "", " ", "a", "..", "-"])).encode())
    for x in ("", " ", "-", ".", "+.", "abc"):
        add("tod", x.encode())
    lines = ["hp %s %s %s %d %d" % (c["f"], nz(c["a"]), nz(c["b"]), c["n"], c["m"]) for c in cs]
    judge_lines(ck, "string helper", "RlJudge", exe, lines, lambda n, r: [dict(cs[n], obs=r[0])])


CHECKS = {"L01": l01, "L02": l02, "L03": l03, "L04": l04, "L05": l05, "L06": l06, "L07": l07, "L08": l08}

"""J05, J06: the RPC server against RxRpc, property trees against RxProp."""
import json
import os
import vlib
from vlib import *
from rlib_checks import model
from rpa_checks import run_traces
from json_checks import build_json, jval, NULLV, unspecified

CHECKS = {}
KINDS = ["echo", "boom", "app", "ver", "pair", "cat", "real", "nop", "none", "mem", "cmem"]
TYPES = ["null", "obj", "arr", "str", "bool", "int", "real"]


def tla(x):
    """A Python value as RxJson has it (no reals)."""
    L = lambda t, s: {"t": t, "s": list(s), "m": []}
    if x is None:
        return L("null", b"")
    if isinstance(x, bool):
        return L("bool", [int(x)])
    if isinstance(x, int):
        return L("int", str(x).encode())
    if isinstance(x, str):
        return L("str", x.encode())
    if isinstance(x, float):
        from json_checks import canon
        return L("real", canon(repr(x)))
    if isinstance(x, list):
        return {"t": "arr", "s": [], "m": [{"k": [], "v": tla(y)} for y in x]}
    return {"t": "obj", "s": [], "m": [{"k": list(k.encode()), "v": tla(x[k])} for k in sorted(x)]}


def back(v):
    t, s = v["t"], bytes(v["s"]) if v["t"] not in ("real",) else b""
    if t == "null":
        return None
    if t == "bool":
        return bool(v["s"][0])
    if t == "int":
        return int(s)
    if t == "str":
        return s.decode()
    return [back(m["v"]) for m in v["m"]] if t == "arr" else {bytes(m["k"]).decode(): back(m["v"]) for m in v["m"]}


def hj(x):
    return hx(json.dumps(x, ensure_ascii=False).encode())


def rp_cmd(e):
    if e["op"] == "add":
        return "add %s %s" % (hx(bytes(e["name"])), e["kind"])
    if e["op"] == "types":
        return "types " + " ".join(map(str, e["masks"]))
    if e["how"] == "parts":
        return "call parts %s %d %s %s" % (hx(bytes(e["name"])), e["mode"], hj(e["pid"]) if "pid" in e else hj(back(e["id"])), hj(e["pp"]) if "pp" in e else hj(back(e["params"])))
    return "call %s %s %d" % (e["how"], hx(bytes(e["text"])), e["mode"])


def rp_line(q):
    return ";".join(rp_cmd(e) for e in q)


def rp_trace(q, r):
    ev = []
    for e, a in zip(q, r):
        e = {k: v for k, v in e.items() if k not in ("pid", "pp")}
        if a.get("x") and e["op"] == "call":
            a = dict(a, ret="thrown")
        ev.append(dict(e, **a))
    return {"ev": ev}


PVAL = [None, True, False, 0, 1, -7, 9, 12345, "a", "", "text", "help", "m0", 0.5, 2.25, [], [1], {}, {"a": 1}]


def args_for(rng, kind):
    s = lambda: rng.choice(["", "a", "text", "\u20ac"])
    n = lambda: rng.choice([0, 1, -7, 12345])
    return {"echo": [n(), s()], "boom": [n(), s()], "app": [None, s()], "ver": [n(), rng.choice([s(), None]), rng.choice([{}, [], True, 1.5, {"a": [1]}])],
            "pair": [n(), n()], "cat": [s(), rng.choice([True, False])], "real": [rng.choice([0.5, 3, -2.25])], "nop": [n()], "none": [],
            "mem": [n(), s()], "cmem": [s()]}.get(kind, [])


def rp_history(rng, n):
    have = {"help": "help", "spec": "spec", "helpspec": "helpspec"}
    pool = ["m%d" % k for k in range(rng.choice([2, 4, 8]))] + ["a", "a.b", "\u20ac", "help", "spec", "A"]
    q = []
    for _ in range(n):
        k = rng.random()
        if k < 0.3 or not q:
            nm, kd = rng.choice(pool + ["m0", "m1"] + ([""] if rng.random() < 0.3 else [])), rng.choice(KINDS + (["empty"] if rng.random() < 0.3 else []))
            if nm in ("help", "spec") and rng.random() < 0.7:
                continue
            q.append({"op": "add", "name": list(nm.encode()), "kind": kd})
            if nm and kd != "empty":
                have[nm] = kd
            continue
        if k < 0.33:
            ts = [rng.sample(TYPES, rng.choice([1, 1, 2, 3, 7])) for _ in range(rng.randint(0, 4))]
            q.append({"op": "types", "ts": ts, "masks": [sum(1 << TYPES.index(t) for t in x) for x in ts]})
            continue
        nm = rng.choice(sorted(have)) if rng.random() < 0.85 else rng.choice(pool + ["none", "M0", "m", "m00", ""])
        kd = have.get(nm)
        if kd in ("help", "spec", "helpspec"):
            ps = [rng.choice(sorted(have) + ["none"])] if rng.random() < 0.8 else rng.choice([[], [None], [1], ["m0", 2], [[]]])
        else:
            ps = args_for(rng, kd)
            y = rng.random()
            if y < 0.12 and ps:
                ps = ps[:-1]
            elif y < 0.25:
                ps = ps + [rng.choice(PVAL)]
            elif y < 0.45 and ps:
                ps[rng.randrange(len(ps))] = rng.choice(PVAL)
            elif y < 0.5:
                ps = [rng.choice(PVAL) for _ in range(rng.randint(0, 5))]
        rid = rng.choice([1, 7, "x", None, 0, "", [1], {"a": None}, 1.5, True, -1])
        mode = rng.choice([0] * 12 + [1, 2, 3])
        how = rng.choice(["text", "text", "value", "parts"])
        if how == "parts":
            q.append({"op": "call", "how": "parts", "name": list(nm.encode()), "id": tla(rid), "params": tla(ps), "mode": mode, "pid": rid, "pp": ps})
            continue
        rq = {"method": nm, "params": ps, "id": rid}
        y = rng.random()
        if y < 0.06:
            del rq["method"]
        elif y < 0.1:
            rq["method"] = rng.choice([1, None, ["m0"], {}, True])
        elif y < 0.18:
            rq["params"] = rng.choice([None, 1, "a", {}, {"a": 1}, True])
        elif y < 0.24:
            del rq["params"]
        elif y < 0.3:
            del rq["id"]
        elif y < 0.34:
            rq["jsonrpc"] = "2.0"
        elif y < 0.38:
            rq = rng.choice([[], [rq], 1, "call", None, {}, True])
        t = json.dumps(rq, ensure_ascii=False).encode()
        if how == "text" and rng.random() < 0.12:
            t = rng.choice([t[:-1], t[1:], b"", b" ", b"x", t.replace(b":", b"", 1), t.replace(b'"', b"", 1), b"[" * 40 + b"]" * 40, t + b"}", b"{" + t])
            if unspecified(t):
                continue
        q.append({"op": "call", "how": how, "text": list(t), "mode": mode})
    return q


def j05(ck):
    rng = ck.rng
    exe = build_json("rpc_h.cc")
    fresh = [{"k": list(k.encode()), "m": k} for k in ("help", "helpspec", "spec")]
    ts = model(ck, "RxRpcMC", "", "OnlyAdds OneEach Latest Others OneOf RunsOnce", fresh, 60)
    run_traces(ck, "server", "RxRpcTrace", [[e for e in p] for p in ts], rp_line, rp_trace, exe)
    seqs = [rp_history(rng, rng.choice([8, 20, 40])) for _ in range(ck.n(700, 20000))]
    run_traces(ck, "server", "RxRpcTrace", [q for q in seqs if q], rp_line, rp_trace, exe)


CHECKS["J05"] = j05


# ---------------------------------------------------------------- J06: property trees
NODE0 = {"t": "none", "ty": "-", "i": 0, "n": 0, "acc": 0, "chk": 0, "id": 0, "m": []}
WALK0 = {"how": "walk", "text": [], "steps": []}
VTYPES = ["i64", "i32", "enum", "dbl", "str", "bool"]


def pr_node(nd):
    if nd["t"] == "none":
        return "e"
    if nd["t"] == "map":
        return " ".join(["m %d" % len(nd["m"])] + ["%s %s" % (hx(bytes(m["k"])), pr_node(m["v"])) for m in nd["m"]])
    if nd["t"] == "arr":
        return " ".join(["a %d" % len(nd["m"])] + [pr_node(m["v"]) for m in nd["m"]])
    if nd["t"] == "leaf":
        return "l %s %d %d %d %d" % (nd["ty"], nd["i"], nd["acc"], nd["chk"], nd["id"])
    return "r %s %d %d %d %d %d" % (nd["ty"], nd["i"], nd["n"], nd["acc"], nd["chk"], nd["id"])


def pr_path(p):
    if p["how"] == "nav":
        return "n" + hx(bytes(p["text"]))
    return "w" + "".join("/i%d" % s[1] if s and s[0] == -1 else "/k" + hx(bytes(s)) for s in p["steps"])


def untla(v):
    if v["t"] == "real":
        sg, e, d = v["s"][0], v["s"][1], v["s"][2:]
        return float("%s0.%se%d" % ("-" if sg else "", bytes(d).decode() or "0", e))
    if v["t"] == "arr":
        return [untla(m["v"]) for m in v["m"]]
    if v["t"] == "obj":
        return {bytes(m["k"]).decode(): untla(m["v"]) for m in v["m"]}
    return back(v)


def pr_cmd(e):
    op = e["op"]
    if op == "build":
        return "build " + pr_node(e["tree"])
    if op in ("clone", "steal"):
        return op
    c = op + " " + pr_path(e["p"])
    return c + {"set": lambda: " " + hj(untla(e["v"])), "enum": lambda: " " + hx(bytes(e["pre"])), "push": lambda: " " + pr_node(e["tree"]),
                "assign": lambda: " " + pr_path(e["q"])}.get(op, lambda: "")()


def pr_ev(op, **kw):
    return dict({"op": op, "p": WALK0, "q": WALK0, "pre": [], "v": NULLV, "tree": NODE0}, **kw)


def pr_line(q):
    return ";".join(pr_cmd(e) for e in q)


def pr_trace(q, r):
    return {"ev": [dict(e, **a) for e, a in zip(q, r)]}


PNAMES = ["a", "b", "ab", "0", "1", "x1", "\u20ac", "A", "a]b", "a b", "volt"]


def pr_tree(rng, d, ids):
    k = rng.random()
    if d == 0 or k < 0.25:
        ids[0] += 1
        if rng.random() < 0.03:
            return NODE0
        ty = rng.choice(VTYPES)
        if rng.random() < 0.3 and ty != "bool":
            i = rng.randrange(4)
            return dict(NODE0, t="range", ty=ty, i=i, n=rng.randint(1, 4 - i), acc=rng.choice([1, 2, 3, 3, 3]), chk=rng.choice([0, 0, 1, 2]), id=ids[0])
        return dict(NODE0, t="leaf", ty=ty, i=rng.randrange(4), acc=rng.choice([1, 2, 3, 3, 3]), chk=rng.choice([0, 0, 0, 1, 2]), id=ids[0])
    if k < 0.7:
        ks = sorted({x.encode() for x in rng.sample(PNAMES, rng.randint(0, 4) if rng.random() < 0.3 else rng.randint(2, 4))})
        return dict(NODE0, t="map", m=[{"k": list(x), "v": pr_tree(rng, d - 1, ids)} for x in ks])
    return dict(NODE0, t="arr", m=[{"k": [], "v": pr_tree(rng, d - 1, ids)} for _ in range(rng.choice([0, 1, 2, 2, 3, 11 if d == 1 else 3]))])


def pr_paths(nd, way=()):
    """All ways down."""
    yield way, nd
    for j, m in enumerate(nd["m"]):
        yield from pr_paths(m["v"], way + ((nd["t"], j, bytes(m["k"])),))


def pr_rpath(rng, ways):
    way = [w for w, nd in ways]
    w = rng.choice(way)
    leaf = [x for x, nd in ways if nd["t"] in ("leaf", "range")]
    if leaf and rng.random() < 0.75:
        w = rng.choice(leaf)
    if rng.random() < 0.6:
        t = b""
        for j, (k, i, nm) in enumerate(w):
            t += (b"[%d]" % i) if k == "arr" else (nm if j == 0 and rng.random() < 0.5 else b"." + nm)
        y = rng.random()
        if y < 0.12:
            t = rng.choice([t + b".a", t + b"[0]", t + b"[", t + b".", t[:-1], b"." + t, t.replace(b"]", b"", 1), t.replace(b"[", b"[x", 1), t.replace(b"[", b"[-", 1), t.replace(b"[1", b"[1x", 1),
                            t.replace(b"[", b"[9", 1), t.replace(b"[", b"[ ", 1), b"", b"a", b"[]", b"[1]", t + b"x", t.replace(b".", b"", 1), t.replace(b"0]", b"4294967296]", 1), b"." + t + b"."])
        # unsettled forms: something other than a step behind ']', leading zeros
        import re
        if re.search(rb"\][^.\[]", t) or re.search(rb"\[0[0-9]", t) or re.search(rb"[0-9]{9}", t):
            t = b""
        return {"how": "nav", "text": list(t), "steps": []}
    st = [[-1, i] if k == "arr" and rng.random() < 0.7 else list(str(i).encode()) if k == "arr" else list(nm) for k, i, nm in w]
    y = rng.random()
    if y < 0.12:
        bad = rng.choice([[-1, 0], [-1, 7], list(b"a"), list(b"none"), [], list(b"x1"), list(b"-1"), list(b"1x"), list(b" 1")])
        st = rng.choice([st + [bad], st[:-1] + [bad], st[:-1]])
    return {"how": "walk", "text": [], "steps": st}


def pr_value(rng, nd):
    ints, reals, strs = [0, 1, 5, 50, 51, 60, -3, 12345, 2147483647], [0.5, 2.75, -3.25, 1200.0, 51.5, 0.0], ["", "a", "text", "\u20ac", "51"]
    any_ = lambda: rng.choice([None, True, False, rng.choice(ints), rng.choice(reals), rng.choice(strs), [], [1], {}, {"a": 1}])
    one = lambda ty: {"i64": lambda: rng.choice(ints * 3 + reals + [True, False, 4294967296000, -9007199254740993]), "i32": lambda: rng.choice(ints * 3 + reals + [True, False]),
                      "enum": lambda: rng.choice(ints), "dbl": lambda: rng.choice(ints[:7] + reals * 3), "str": lambda: rng.choice(strs), "bool": lambda: rng.choice([True, False])}[ty]()
    if nd is None or nd["t"] not in ("leaf", "range") or rng.random() < 0.12:
        return any_()
    if nd["t"] == "leaf":
        return one(nd["ty"])
    v = [one(nd["ty"]) for _ in range(rng.choice([0, 1, nd["n"], nd["n"], nd["n"] + 1]))]
    if v and rng.random() < 0.15:
        v[rng.randrange(len(v))] = any_()
    return v


def pr_steps(nd, p):
    """Where a path leads if it is a plain one (to choose fitting values; the judgement is the specification's)."""
    import re
    st = [s for s in p["steps"]] if p["how"] == "walk" else [list(x[1:]) if x[:1] == b"." else [-1, int(x[1:])] if x[:1] == b"[" else list(x)
                                                              for x in re.findall(rb"\[[0-9]+|\.?[^.\[\]]+", bytes(p["text"]).replace(b"]", b""))]
    for s in st:
        k = s[1] if s and s[0] == -1 else None
        if nd["t"] == "arr":
            k = k if k is not None else int(bytes(s)) if s and bytes(s).isdigit() else 99
            if k >= len(nd["m"]):
                return None
            nd = nd["m"][k]["v"]
        else:
            b = list(str(k).encode()) if k is not None else s
            f = [m["v"] for m in nd["m"] if m["k"] == b]
            if not f:
                return None
            nd = f[0]
    return nd


def pr_history(rng, n):
    import copy
    ids = [0]
    tree = pr_tree(rng, 3, ids)
    if tree["t"] in ("leaf", "none") and rng.random() < 0.8:
        tree = dict(NODE0, t="map", m=[{"k": list(b"a"), "v": tree}, {"k": list(b"b"), "v": pr_tree(rng, 2, ids)}])
    q = [pr_ev("build", tree=tree)]
    tree = copy.deepcopy(tree)
    toks = len(pr_line(q).split())
    for _ in range(n):
        ways = list(pr_paths(tree))
        if len(ways) > 60:
            break
        p = pr_rpath(rng, ways)
        nd = pr_steps(tree, p)
        k = rng.random()
        if k < 0.4:
            e = pr_ev("set", p=p, v=tla(pr_value(rng, nd)))
        elif k < 0.62:
            e = pr_ev("get", p=p)
        elif k < 0.67:
            e = pr_ev("access", p=p)
        elif k < 0.75:
            e = pr_ev("enum", p=rng.choice([WALK0, p, pr_rpath(rng, ways)]), pre=list(rng.choice([b"", b"", b"p", b".r[0]"])))
        elif k < 0.82:
            e = pr_ev("json", p=rng.choice([WALK0, p, pr_rpath(rng, ways)]))
        elif k < 0.88:
            e = pr_ev("push", p=p if rng.random() < 0.2 else {"how": "walk", "text": [], "steps": [[-1, i] if t == "arr" else list(nm) for t, i, nm in rng.choice(ways)[0]]}, tree=pr_tree(rng, rng.choice([0, 0, 1]), ids))
        elif k < 0.95:
            e = pr_ev("assign", p=p, q=pr_rpath(rng, ways))
        elif k < 0.965:
            e = pr_ev("empty", p=p)
        elif k < 0.985:
            e = pr_ev("clone")
        else:
            e = pr_ev("steal")
        # keep track of the shape, so that later paths lead somewhere
        if e["op"] == "push":
            d = pr_steps(tree, e["p"])
            if d is not None and d["t"] == "arr":
                d["m"].append({"k": [], "v": copy.deepcopy(e["tree"])})
        if e["op"] == "assign":
            d, s = pr_steps(tree, e["p"]), pr_steps(tree, e["q"])
            if d is not None and s is not None:
                s = copy.deepcopy(s)
                d.clear()
                d.update(s)
        if e["op"] == "empty":
            d = pr_steps(tree, e["p"])
            if d is not None:
                d.clear()
                d.update(copy.deepcopy(NODE0))
        q.append(e)
        toks += len(pr_cmd(e).split()) + 1
        if toks > 3500:
            q.pop()
            break
    return q


def j06(ck):
    rng = ck.rng
    exe = build_json("prop_h.cc", extra_srcs=[os.path.join(vlib.REPO, "rexjsonrpc/property.cpp")])
    out, st = modelcheck("RxPropMC", "SPECIFICATION Spec\nCONSTANT MaxNodes = %d\nPROPERTIES NoEffect OnlySetWrites NeedsRights NotifiedOnce QuietElse TreeStays ReadNeeds SeesWrite\nVIEW View\nACTION_CONSTRAINT Emit\n" % ck.n(6, 7), workers=1)
    ck.add(st)
    es = [(x["f"], x["e"], x["t"]) for x in edges(out)]
    ck.notes.setdefault("model_edges", {})["RxPropMC"] = len(es)
    init = es[0][0]
    ts = tours(es, init, maxlen=60)
    if sum(len(p) for p in ts) < len(es):
        raise MachineryError("tours of RxPropMC do not cover its transitions")
    run_traces(ck, "property tree", "RxPropTrace", [[pr_ev("build", tree=init["root"])] + list(p) for p in ts], pr_line, pr_trace, exe)
    seqs = [pr_history(rng, rng.choice([6, 15, 30])) for _ in range(ck.n(450, 20000))]
    run_traces(ck, "property tree", "RxPropTrace", seqs, pr_line, pr_trace, exe)


CHECKS["J06"] = j06

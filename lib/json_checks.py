"""J01..J04: the JSON libraries against RxJson and RxVal."""
import itertools, json, os, re
from vlib import *
from rlib_checks import judge_lines, model
from rex_checks import build_rexcc
import vlib

CHECKS = {}
_built = {}


def gen_header(d):
    cc = build_rexcc("plain", ["-O1"])
    r = sh([cc, os.path.join(vlib.REPO, "rexjson/rexjsondfa.rexcc"), "-o", os.path.join(d, "rexjsondfa.h")], env=ENV)
    if r.returncode or not os.path.exists(os.path.join(d, "rexjsondfa.h")):
        raise MachineryError("no scanner for the JSON libraries: " + r.stderr.decode(errors="replace")[-500:])


def build_json(harness="json_h.cc", extra_srcs=(), san="address,undefined"):
    """The driver with the JSON libraries of the working tree."""
    if harness in _built:
        return _built[harness]
    d = os.path.join(scratch(), "json")
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(os.path.join(d, "rexjsondfa.h")):
        gen_header(d)
    R = vlib.REPO
    inc = ["-w", "-D_GNU_SOURCE", "-I" + d, "-I" + HARN, "-I" + R + "/rexjson", "-I" + R + "/rexjsonrpc", "-I" + R + "/rex", "-I" + R]
    fl = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"]
    jobs = [(["g++"] + inc + fl + ["-c", R + "/rexjson/rexjson++.cpp", "-o", d + "/jpp.o"]),
            (["gcc"] + inc + ["-include", "sys/types.h"] + fl + ["-c", R + "/rexjson/rexjson.c", "-o", d + "/jc.o"]),
            (["g++"] + inc + fl + ["-c", os.path.join(HARN, harness), "-o", d + "/%s.o" % harness])]
    for s in extra_srcs:
        jobs.append(["g++"] + inc + fl + ["-c", s, "-o", d + "/" + os.path.basename(s) + ".o"])
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                raise MachineryError("the JSON libraries do not build\n" + r.stderr.decode(errors="replace")[-3000:])
    exe = d + "/" + harness.split(".")[0]
    r = sh(["g++"] + fl + [j[-1] for j in jobs] + ["-o", exe, "-lpthread"])
    if r.returncode:
        raise MachineryError("the JSON driver does not link\n" + r.stderr.decode(errors="replace")[-3000:])
    _built[harness] = exe
    return exe


# ------------------------------------------------------------------ texts
NUMS = ["0", "-0", "7", "-1", "10", "123", "-905", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "9007199254740993",
        "9223372036854775807", "-9223372036854775808", "123456789012345678",
        "0.5", "-0.25", "1.0", "10.500", "3.14159265358979", "0.000001", "1e0", "1E5", "1e+5", "12e-3", "-1.5E-10", "0.0", "-0.0", "0e0", "0e5", "1.0e2", "100e-2",
        "1e22", "1.7976931348623e308", "4.9e-300", "123456789.123456", "0.1", "0.30000000000004", "99999.99999", "9.9995", "-0.00005", "0.99995", "2.5", "1.5", "0.5e0"]
STRS = ["", "a", "ab", "key", " ", "\\n", "\\\"", "\\\\", "\\/", "/", "\\b\\f\\n\\r\\t", "\\u0041", "\\u00e9", "\\u07FF", "\\u0800", "\\u20ac", "\\uFFFD", "\\ud83d\\ude00",
        "\\u0000", "\\u001f", "\\u007f", "\\u0080", "é", "€", "😀", "\x7f", "a\\\\nb", "\\\\u0041", "\\\\\\\"", "\\\\\\\\", "a\\\\", "[{,:}]", "null", "1", "\\uDBFF\\uDFFF", "\\uD800\\uDC00", "'", "<>&"]
WS = ["", "", "", " ", "\n", "\t", "\r\n", "  ", " \n\t "]


def jstr(rng):
    if rng.random() < 0.6:
        return '"' + rng.choice(STRS) + '"'
    return '"' + "".join(rng.choice(STRS + ["b", "c", "x"]) for _ in range(rng.randint(1, 4))) + '"'


def jval(rng, d, wide=3):
    w = lambda: rng.choice(WS)
    k = rng.random()
    if d <= 0 or k < 0.4:
        k = rng.random()
        if k < 0.4:
            return rng.choice(NUMS)
        if k < 0.75:
            return jstr(rng)
        return rng.choice(["null", "true", "false"])
    n = rng.choice([0, 1, 1, 2, 2, 3, wide])
    if k < 0.7:
        return "[" + w() + ("," + w()).join(w() * 0 + jval(rng, d - 1) + w() for _ in range(n)) + "]"
    keys = [jstr(rng) for _ in range(n)]
    if n > 1 and rng.random() < 0.2:
        keys[-1] = keys[0]
    return "{" + w() + ("," + w()).join(keys[j] + w() + ":" + w() + jval(rng, d - 1) + w() for j in range(n)) + "}"


def unspecified(b):
    """Numbers outside what is specified (more than 64 bits, more than 15 significant digits), halves of pairs."""
    for m in re.finditer(rb"[0-9.]+([eE][+-]?[0-9]+)?", b):
        x = m.group(0).decode()
        ds = re.split("[eE]", x)[0].replace(".", "").lstrip("0")
        if x in NUMS:
            continue
        if len(ds) > 15 or (m.group(1) and abs(int(re.sub("[^0-9-]", "", x[re.search("[eE]", x).end():]) or 0)) > 280):
            return True
    return re.search(rb"\\u[dD][89a-fA-F]", re.sub(rb"\\u[dD][89abAB][0-9a-fA-F]{2}\\u[dD][c-fC-F][0-9a-fA-F]{2}", b"", b)) is not None


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(6)
        p = rng.randrange(len(b) + 1)
        if k == 0 and b:
            del b[min(p, len(b) - 1)]
        elif k == 1:
            b[p:p] = bytes([rng.choice(b'[]{},:"\\ \n0123.eE+-tfnu/\x00\x01\x1f\x7f\x80\xc3\xff')])
        elif k == 2 and b:
            b[min(p, len(b) - 1)] = rng.choice(b'[]{},:"\\ 01.e-tfnua\x00\x1f\xff')
        elif k == 3:
            del b[p:]
        elif k == 4 and b:
            q = rng.randrange(len(b))
            b[p:p] = b[q:q + rng.randint(1, 4)]
        else:
            b += rng.choice([b" ", b"\n", b"x", b"}", b"]", b",", b"1", b'"', b"\x00", b" null", b"e5", b".5", b"."])
    return bytes(b)


def texts(rng, n):
    out = []
    toks = ["[", "]", "{", "}", ",", ":", '"a"', "1", "null"]
    for k in range(1, 5):
        out += ["".join(x).encode() for x in itertools.product(toks, repeat=k)]
    for k in range(1, 5):
        out += [("[%s]" % "".join(x)).encode() for x in itertools.product("-01.e+", repeat=k)]
    for b in range(256):
        out += [b'"' + bytes([b]) + b'"', b'"\\' + bytes([b]) + b'"', bytes([b]) + b"1", b"1" + bytes([b]), b'["\\u00' + bytes([b]) + b'0"]']
    out = rng.sample(out, min(len(out), n // 2))
    while len(out) < n:
        t = (rng.choice(WS) + jval(rng, rng.choice([0, 1, 2, 3, 4])) + rng.choice(WS)).encode()
        if rng.random() < 0.15:
            k = rng.choice([1, 5, 20, 31, 32, 33, 40])
            o = [rng.choice(['[', '{"k":', '[1,', '{"a":2,"b":', '[ [],']) for _ in range(k)]
            t = ("".join(o) + jval(rng, 1) + "".join("]" if x.startswith("[") else "}" for x in reversed(o))).encode()
        if rng.random() < 0.5:
            t = mutate(rng, t)
        if len(t) <= 400:
            out.append(t)
    return [t for t in out if not unspecified(t)]


def limits(rng, t):
    d, m = 0, 0
    for c in t:
        d += c in b"[{"
        m = max(m, d)
        d -= c in b"]}"
    return max(0, rng.choice([m - 1, m, m, m + 1, m + 1, m + 2, 1, 32, 1000]))


def j01(ck):
    rng = ck.rng
    exe = build_json()
    ts = texts(rng, ck.n(7000, 120000))
    lines, mx = [], []
    for t in ts:
        how = rng.randrange(6)
        m = limits(rng, t) if how < 4 else 32
        lines.append("read %d %s %d" % (how, hx(t), m))
        mx.append(m)
    judge_lines(ck, "reading", "RxJsonJudge", exe, lines, lambda n, r: [{"k": "read", "text": list(ts[n]), "max": mx[n], "got": r[0]}])


CHECKS["J01"] = j01


def j02(ck):
    rng = ck.rng
    exe = build_json()
    lines, meta = [], []
    while len(lines) < ck.n(4500, 80000):
        t = (rng.choice(WS) + jval(rng, rng.choice([0, 1, 2, 3, 4]))).encode()
        if rng.random() < 0.2:
            t = t.replace(b"1", rng.choice([b'"@inf"', b'"@-inf"', b'"@nan"', b"null"]), 1)
        if rng.random() < 0.3:
            t = t.replace(b'"a"', b"null", 2) if b'"a":' not in t else t
        if len(t) > 400 or unspecified(t) or t.count(b'"') % 2 and False:
            continue
        try:
            json.loads(t.decode())
        except ValueError:
            continue
        how = rng.choice([0, 0, 1, 1, 2, 3, 4, 5])
        pretty, npr, tab, prec = rng.randrange(2), rng.randrange(2), rng.choice([0, 1, 2, 4, 8]), rng.choice([0, 1, 3, 4, 6, 8, 12])
        crlf = rng.choice(["\n", "\r\n", "", " "])
        lines.append("write %s %d %d %d %d %d %s" % (hx(t), how, pretty, npr, tab, prec, hx(crlf.encode())))
        if how in (3, 4):
            npr, prec = 1, 4
        meta.append((list(t), npr, prec))
    judge_lines(ck, "writing", "RxJsonJudge", exe, lines, lambda n, r: [{"k": "write", "text": meta[n][0], "nullprop": meta[n][1], "prec": meta[n][2], "out": r[0]}])


CHECKS["J02"] = j02


def j03(ck):
    rng = ck.rng
    exe = build_json()
    ts = texts(rng, ck.n(5000, 90000))
    lines, meta = [], []
    for t in ts:
        m = limits(rng, t)
        k = 2 * (1 + sum(t.count(c) for c in b"[{,"))
        n = max(0, rng.choice([k, k, k + 1, k + 5, k - 1, k - 2, k - 3, rng.randint(0, k), 0, 1, 2]))
        lines.append("c %s %d %d" % (hx(t), n, m))
        meta.append((m, n))
    judge_lines(ck, "C parser", "RxJsonJudge", exe, lines, lambda n, r: [{"k": "c", "text": list(ts[n]), "max": meta[n][0], "n": meta[n][1], "got": r[0]}])


CHECKS["J03"] = j03


# ------------------------------------------------------------------ J04: values with a history
from decimal import Decimal
from rpa_checks import run_traces
NULLV = {"t": "null", "s": [], "m": []}
GETTERS = ["type", "name", "null", "str", "bool", "int", "int64", "real", "obj", "arr", "mobj", "marr", "tstr", "tbool", "tint", "tint64", "treal", "tfloat",
           "cbool", "cint", "cint64", "creal", "cfloat", "dump"]


def canon(x):
    sg, ds, ex = Decimal(x).as_tuple()
    ds = "".join(map(str, ds)).lstrip("0")
    if not ds:
        return [0, 0]
    n = len(ds) + ex
    return [sg, n] + [ord(c) for c in ds.rstrip("0")]


def jpath(p):
    return "%d%s" % (p["r"] - 1, "".join("/i%d" % w[1] if w and w[0] == -1 else "/k" + hx(bytes(w)) for w in p["w"]))


def jv_cmd(e):
    o = e["op"]
    if o == "set":
        return "v set %s %s %s %d" % (jpath(e["p"]), e["a"][0], e["a"][1], e["a"][2])
    if o == "get":
        return "v get %s %s" % (jpath(e["p"]), e["g"])
    if o == "ctor":
        return "v ctor %d %s" % (e["p"]["r"] - 1, jpath(e["q"]))
    if o in ("copy", "copyobj", "move", "push"):
        return "v %s %s %s" % (o, jpath(e["p"]), jpath(e["q"]))
    if o == "pushn":
        return "v pushn %s %s" % (jpath(e["p"]), bytes(e["v"]["s"]).decode())
    if o == "elem":
        return "v elem %s %d %d" % (jpath(e["p"]), e["n"], e.get("how", 0))
    if o == "read":
        return "v read %s %s" % (jpath(e["p"]), hx(bytes(e["text"])))


def jv_line(q):
    return ";".join(jv_cmd(e) for e in q) + ";fin"


def jv_trace(q, r):
    ev = [dict({k: v for k, v in e.items() if k not in ("a", "how")}, x=a["x"], ret=a["v"], r=a["r"]) for e, a in zip(q, r)]
    if r[-1]:                                    # memory that was not given back
        ev[-1]["x"] = "%d blocks left" % r[-1]
    return {"ev": ev}


def jleaf(rng):
    """-> (value, (type letter, text, how))"""
    k = rng.randrange(9)
    how = rng.randrange(3)
    S = lambda t, s: {"t": t, "s": s, "m": []}
    if k == 0:
        return NULLV, ("n", "-", rng.randrange(2))
    if k == 1:
        b = rng.randrange(2)
        return S("bool", [b]), ("b", str(b), how)
    if k == 2:
        n = rng.choice([0, 1, -1, 7, -300, 99999, 2147483647, -2147483648])
        return S("int", list(str(n).encode())), ("i", str(n), rng.randrange(4 if n >= 0 else 3))
    if k == 3:
        n = rng.choice([0, 5, -5, 2147483648, -2147483649, 9223372036854775807, -9223372036854775808, 123456789012345])
        return S("int", list(str(n).encode())), ("l", str(n), rng.randrange(6))
    if k == 4:
        x = rng.choice(["0.5", "-0.25", "3.0", "0.0", "1024.75", "-7.125", "100000.5"])
        return S("real", canon(x)), ("d", x, how)
    if k in (5, 6):
        t = rng.choice([b"", b"a", b"text", "\u20ac".encode(), b"long enough not to fit into the string itself", b'"', b"\n"])
        return S("str", list(t)), ("s" if k == 5 else "c", hx(t), how)
    return S("obj" if k == 7 else "arr", []), ("o" if k == 7 else "a", "-", how)


def jv_history(rng, n):
    shape = [None] * 3                       # list / dict / None, for choosing paths that lead somewhere
    names = [b"a", b"b", b"", b"key"]

    def path(create=0.3):
        r = rng.randrange(3)
        v, w = shape[r], []
        while rng.random() < 0.75:
            if isinstance(v, list):
                i = rng.randrange(len(v)) if v and rng.random() < 0.93 else rng.choice([len(v), len(v) + 1, 1000000])
                w.append([-1, i])
                if i >= len(v):
                    return {"r": r + 1, "w": w}, False
                v = v[i]
            elif isinstance(v, dict):
                k = rng.choice(sorted(v)) if v and rng.random() > create else rng.choice(names)
                w.append(list(k))
                v.setdefault(k, None)
                v = v[k]
            elif rng.random() < 0.05:
                w.append(rng.choice([[-1, 0], [97]]))
                return {"r": r + 1, "w": w}, False
            else:
                break
        return {"r": r + 1, "w": w}, True

    def look(p):
        v = shape[p["r"] - 1]
        for w in p["w"]:
            v = v[w[1]] if w and w[0] == -1 else v[bytes(w)]
        return v

    def put(p, x):
        if not p["w"]:
            shape[p["r"] - 1] = x
            return
        u = look({"r": p["r"], "w": p["w"][:-1]})
        w = p["w"][-1]
        u[w[1] if w and w[0] == -1 else bytes(w)] = x
    dc = lambda x: [dc(y) for y in x] if isinstance(x, list) else {k: dc(y) for k, y in x.items()} if isinstance(x, dict) else None
    size = lambda x: 1 + sum(map(size, x)) if isinstance(x, list) else 1 + sum(map(size, x.values())) if isinstance(x, dict) else 1
    conv = lambda j: [conv(y) for y in j] if isinstance(j, list) else {k.encode(): conv(y) for k, y in j.items()} if isinstance(j, dict) else None
    q = []
    while len(q) < n:
        o = rng.choice(["set"] * 5 + ["get"] * 5 + ["copy"] * 4 + ["move"] * 3 + ["push"] * 3 + ["pushn", "elem", "ctor", "copyobj", "read", "read"])
        p, ok = path()
        e = {"op": o, "p": p}
        if o in ("copy", "copyobj", "move", "push", "ctor"):
            if o == "ctor":
                e["p"] = p = {"r": p["r"], "w": []}
                ok = True
            if not ok:
                e["q"] = {"r": rng.randrange(3) + 1, "w": []}
            else:
                k, ok2 = path()
                if rng.random() < 0.15:
                    k, ok2 = dict(p), True
                e["q"] = k
                ok = ok2
            if o == "move" and e["q"]["r"] == p["r"] and e["q"]["w"] != p["w"] and p["w"][:len(e["q"]["w"])] == e["q"]["w"]:
                continue
            if ok:
                x = look(e["q"])
                if sum(map(size, shape)) + size(x) > 60:
                    e.update(op="get", g="dump")
                elif o in ("copy", "ctor") or (o == "copyobj" and x is not None):
                    put(p, dc(x))
                elif o == "push" and isinstance(look(p), list):
                    y = dc(x)
                    look(p).append(y)
                elif o == "move" and e["q"] != p:
                    put(e["q"], None)
                    put(p, x)
            if e["op"] == "get":
                del e["q"]
        elif o == "set":
            e["v"], e["a"] = jleaf(rng)
            if ok:
                put(p, [] if e["v"]["t"] == "arr" else {} if e["v"]["t"] == "obj" else None)
        elif o == "get":
            e["g"] = rng.choice(GETTERS)
        elif o == "pushn":
            e["v"] = {"t": "int", "s": list(str(rng.randint(-9, 9)).encode()), "m": []}
            if ok and isinstance(look(p), list):
                look(p).append(None)
        elif o == "elem":
            x = look(p) if ok else None
            e["n"] = rng.choice([0, len(x) if x else 1, 1, 5])
            e["how"] = rng.randrange(2)
        elif o == "read":
            t = rng.choice(['[1,[2,"x"],{"a":null}]', '{"a":{"b":[1]},"b":"y"}', '[]', '{}', '"s"', '[[],[[]]]', '1.5', 'null', '[1,2,3,4,5,6,7,8,9,10,11,12]',
                            '{"k1":1,"k2":2,"k3":[1,2],"k4":{},"k5":"five","k6":null,"k7":7}', '[[1,2,3,4,5,6,7,8,9],"x"]'])
            e["text"] = list(t.encode())
            if ok:
                put(p, conv(json.loads(t)))
        q.append(e)
        if e["op"] == "set" and rng.random() < 0.5:       # and straight back, as what it is or close to it
            g = {"int": ["int64", "tint64", "cint64", "real", "treal", "creal"], "real": ["real", "treal", "creal", "int64"], "str": ["str", "tstr"], "bool": ["bool", "tbool", "cbool"],
                 "obj": ["obj", "mobj", "arr"], "arr": ["arr", "marr", "obj"]}.get(e["v"]["t"], ["null", "name"])
            q.append({"op": "get", "p": dict(p), "g": rng.choice(g)})
    return q


def j04(ck):
    rng = ck.rng
    exe = build_json()
    ts = model(ck, "RxValMC", "CONSTANT MaxNodes = %d" % ck.n(2, 3), "Sanity Apart CopyKeeps CopyGives MoveNulls MoveCounts FailKeeps", [NULLV, NULLV], 60)
    seqs = []
    for p in ts:
        q = []
        for e in p:
            e = {k: v for k, v in e.items() if k not in ("x", "ret")}
            if e["op"] == "set":
                t = e["v"]["t"]
                e["a"] = {"int": ("i", "1"), "arr": ("a", "-"), "obj": ("o", "-")}[t] + (rng.randrange(3),)
            q.append(e)
        seqs.append(q)
    run_traces(ck, "values", "RxValTrace", seqs, jv_line, jv_trace, exe)
    seqs = [jv_history(rng, rng.choice([6, 15, 30])) for _ in range(ck.n(700, 20000))]
    run_traces(ck, "values", "RxValTrace", seqs, jv_line, jv_trace, exe)


CHECKS["J04"] = j04

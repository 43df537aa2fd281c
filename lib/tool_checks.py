"""T01, T02: the search tools as programs."""
import glob, json, os, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import *
import rex_checks as rx
import rpa_checks as rpa
from gen_rpa import Gen, Render
from rex_checks import gen, text, words, enc, u8, cps, special, ALPHAS

CHECKS = {}


def build_tool(name, incs):
    """A tool of the working tree, with sanitizers."""
    lib, fl = build_lib()
    exe = os.path.join(scratch(), name)
    if not os.path.exists(exe):
        d = os.path.join(vlib.REPO, name)
        r = sh(["gcc", "-w", "-D_GNU_SOURCE", "-I" + vlib.REPO, "-I" + vlib.REPO + "/arch/unix", "-I" + d, "-I" + d + "/unix"] + ["-I%s/%s" % (vlib.REPO, i) for i in incs] + list(fl) +
               sorted(glob.glob(d + "/*.c") + glob.glob(d + "/unix/*.c")) + [lib, "-o", exe, "-lpthread", "-lm"])
        if r.returncode:
            raise MachineryError("%s does not build\n%s" % (name, r.stderr.decode(errors="replace")[-2000:]))
    return exe


class Job:
    """One run of a tool: arguments, files of the working directory, standard input, and what makes a case of the answer."""

    def __init__(self, n, steps, files, stdin, case):
        self.n, self.steps, self.files, self.stdin, self.case = n, steps, files, stdin, case

    def run(self, exe):
        """Returns (why, out, exit status) of the last step."""
        d = os.path.join(scratch(), "tool", "%d-%d" % (self.n, threading.get_ident()))
        os.makedirs(d)
        try:
            for f, b in self.files.items():
                os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                with open(os.path.join(d, f), "wb") as fh:
                    fh.write(b)
            for args in self.steps:
                try:
                    r = subprocess.run([exe.encode()] + args, cwd=d, input=self.stdin or b"", stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=10)
                except subprocess.TimeoutExpired:
                    return "hang", b"", -1
                if r.returncode not in (0, 1, 2):
                    t = r.stderr.decode(errors="replace")
                    m = re.search(r"SUMMARY: (.*)", t) or re.search(r"(runtime error: .*)", t)
                    return "crash: rc=%d %s" % (r.returncode, m.group(1)[:200] if m else t[-200:]), b"", r.returncode
            return None, r.stdout, r.returncode
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def tell(self):
        return {"commands": [[a.decode(errors="backslashreplace") for a in s] for s in self.steps], "files": {f: b.hex() for f, b in self.files.items()},
                "stdin": (self.stdin or b"").hex()}


def run_jobs(ck, what, module, exe, jobs, const=""):
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: j.run(exe), jobs))
    cases, own, told = [], [], 0
    for j, (why, out, x) in zip(jobs, res):
        if why:
            told += 1
            if told <= 20 and j.run(exe)[0]:
                ck.violation("%s: %s" % (what, why), dict(j.tell(), why=why))
            continue
        cases.append(j.case(out, x))
        own.append(j)
    rej, st = judge(module, cases, const=const)
    ck.add(st)
    ck.ntraces += len(cases)
    again = []
    for i in rej[:40]:
        why, out, x = own[i].run(exe)
        again.append((i, {"k": "-"} if why else own[i].case(out, x)))
    still = judge(module, [c for _, c in again], const=const)[0] if again else []
    for k in still:
        i = again[k][0]
        ck.violation("%s: the specification refuses what %s printed: %r" % (what, [a.decode(errors="backslashreplace") for a in own[i].steps[-1]], bytes(res_out(cases[i]))[:200]),
                     dict(own[i].tell(), case=cases[i], required=st["explain"].get(i)))
    for c in cases[:: max(1, len(cases) // 4)]:
        ck.sample(json.dumps(c)[:500])


def res_out(c):
    return c["out"] if "out" in c else c["obs"][0]["out"]


def argv_ok(b):
    return b and not b.startswith(b"-") and b"\0" not in b and b != b"/?" and len(b) < 60000


# ---------------------------------------------------------------- T01: rexgrep
def grep_input(rng, ast, alpha, n):
    """A text of some lines, most of them near a match."""
    out = b""
    for _ in range(n):
        x = rng.random()
        fill = lambda k: enc([c for c in [rng.choice(alpha + [120, 32]) for _ in range(k)] if c != 10])
        w = rng.choice(words(rng, rng.choice(ast), alpha, 2, 14)) if ast else b""
        l = w if x < 0.25 else fill(rng.randint(0, 6)) + w + fill(rng.randint(0, 4)) if x < 0.7 else fill(rng.randint(0, 10)) if x < 0.85 else b""
        out += l + (b"\n" if rng.random() < 0.85 else rng.choice([b"\r\n", b"\n\n", b""]))
    if rng.random() < 0.4:
        out = out.rstrip(b"\n")
    if rng.random() < 0.08:
        k = rng.randint(0, len(out))
        out = out[:k] + bytes([rng.choice([0x80, 0xc3, 0xe2, 0xf0, 0xff])]) + out[k:]
    return out


def grep_job(rng, n):
    alpha = rng.choice(ALPHAS[:5] + ALPHAS[7:] if rng.random() < 0.8 else ALPHAS)
    es, asts = [], []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.random()
        if x < 0.05:
            t = rx.mangled(rng)
            t = t if isinstance(t, str) else t[0]
            es.append(t)
            continue
        e = gen(rng, rng.choice([0, 1, 2, 2, 3]), alpha, 12)
        asts.append(e)
        es.append(text(rng, e, ""))
    files, args, gs, stdin = {}, [], [], b""
    for k, t in enumerate(es):
        b = u8(t)
        if argv_ok(b) and rng.random() < 0.75:
            args += [b"-e", b]
        elif b and b"\0" not in b:
            files["p%d" % k] = b
            args += [b"-f", b"p%d" % k]
        else:
            return None
    mode = rng.choice(["l", "o"])
    opts = [rng.choice([b"-o", b"--only-matching"])] if mode == "o" else [b"-l"] if rng.random() < 0.3 else []
    names = False
    inp = []
    def some():
        b = grep_input(rng, asts, alpha, rng.choice([0, 1, 2, 4, 7]))
        return b * rng.randint(30, 60) if len(b) < 30 and rng.random() < 0.02 else b
    y = rng.random()
    if y < 0.3:
        stdin = some()
        gs = [[{"n": [], "b": list(stdin)}]]
    else:
        if y < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                b = some()
                if argv_ok(b):
                    inp += [b"-s", b]
                    gs.append([{"n": [], "b": list(b)}])
                    if len(b) < 40 and b"/" not in b and b"." not in b and rng.random() < 0.3:      # a file of that name is not asked for
                        files.setdefault(os.fsdecode(b), some())
        if not inp or y > 0.46:
            names = rng.random() < 0.4 and not gs
            for k in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.25:
                    g = []
                    slash = rng.choice(["", "/"])
                    for m in range(rng.choice([0, 1, 2, 3])):
                        f = rng.choice(["d%d/f%d", "d%d/s/f%d", "d%d/s/t/f%d", "d%d/u/f%d"]) % (k, m)
                        b = some()
                        files[f] = b
                        g.append({"n": list(f.encode()), "b": list(b)})
                    if g:
                        gs.append(g)
                        inp.append(b"d%d" % k + slash.encode())
                else:
                    b = some()
                    files["f%d" % k] = b
                    gs.append([{"n": list(b"f%d" % k), "b": list(b)}])
                    inp.append(b"f%d" % k)
            if rng.random() < 0.1:
                inp.append(b"none")
    if names:
        opts.append(rng.choice([b"-H", b"--with-filename"]))
    how = rng.choice(["dfa", "dfa", "nfa", "nfa", "sub", "bin", "bin"])
    bad = False
    if how == "nfa":
        opts.append(b"-N")
    if how in ("sub", "bin") and (how == "sub" or rng.random() < 0.4):
        opts.append(b"-S")
    parts = [opts, args, inp]
    rng.shuffle(parts) if rng.random() < 0.3 else None
    steps = [sum(parts, [])]
    if how == "bin":
        steps = [[o for o in opts if o == b"-S"] + args + [b"-c", b"-b", b"x.bin"], [b"-b", b"x.bin"] + [o for o in opts if o != b"-S"] + inp]
    elif rng.random() < 0.04:
        steps = [steps[0] + [b"-q"]]
        gs = []
    head = {"k": "grep", "es": [cps(t) for t in es], "mode": mode, "names": names, "gs": gs}
    if how == "bin":        # a refused expression leaves no file: then there is nothing to search with
        return Job(n, steps, files, stdin, lambda out, x: dict(head, out=list(out), x=x))
    return Job(n, steps, files, stdin, lambda out, x: dict(head, out=list(out), x=x))


def t01(ck):
    exe = build_tool("rexgrep", ["rlib", "rex"])
    jobs = []
    while len(jobs) < ck.n(1600, 14000):
        j = grep_job(ck.rng, len(jobs))
        if j and sum(map(len, j.files.values())) + len(j.stdin) < 4000:
            jobs.append(j)
    run_jobs(ck, "rexgrep", "RexJudge", exe, jobs)
    ck.assumptions = ["search patterns do not begin with '-'"]


CHECKS["T01"] = t01


# ---------------------------------------------------------------- T02: rpagrep
def pgrep_job(rng, n):
    """A grammar, spread over -f and -e, and the texts to look through in one mode of rpagrep."""
    uni = rng.random() < 0.25
    al = rng.choice(["abЖ", "aЖ€", "ab\U00010400", "aAжЖ", "aĊ\u0a61"]) if uni else rng.choice(["ab", "abc", "aAbB", "ab1"])
    gen = rpa.RefGen(rng, al, ("a", "b", "c")) if rng.random() < 0.5 else Gen(rng, al, ("a", "b", "c"))
    items = gen.grammar(anon=0.25, d=rng.choice([0, 1, 2]))
    items = rpa.with_dirs(rng, items, gen.names, ("noemit", "emitnone", "emitall", "emitid", "abort"), rng.choice([0, 0, 1, 2]))
    mode = rng.choice(["scan", "scan", "lines", "lines", "match", "parse", "parse", "noprod", "ast"])
    if mode in ("parse", "noprod", "ast") and rng.random() < 0.5:       # in front, so that it counts
        t, u = rng.choice([it["n"] for it in items if it["k"] == "rule"]), rng.choice([1, 7, 65536, 2147483647])
        items.insert(0, {"k": "dir", "n": "#!abort %s" % t, "d": "abort", "t": t, "u": 0})
        if rng.random() < 0.6:
            items.insert(0, {"k": "dir", "n": "#!emitid %s N %d" % (t, u), "d": "emitid", "t": t, "u": u})
    while items[-1]["k"] == "dir":          # the last rule of the grammar is searched for: end with one
        items.pop()
    R = Render(rng)
    texts = []
    for it in items:
        texts.append(R.grammar([it]).encode())
    root = rpa.roots(items)[-1]
    if len({it["n"] for it in items if it["k"] != "dir"}) < len(rpa.roots(items)):
        return None
    args, files = [], {}
    cut = rng.choice([0, 0, len(items), rng.randint(0, len(items))])        # the items in front of the cut come from files
    def pieces(ts):
        out = []
        for t in ts:
            if out and rng.random() < 0.7:
                out[-1] += t
            else:
                out.append(t)
        return out
    fargs, eargs = [], []
    for k, t in enumerate(pieces(texts[:cut])):
        files["g%d" % k] = t
        fargs += [b"-f", b"g%d" % k]
    for t in pieces(texts[cut:]):
        if b"\0" in t:
            return None
        eargs += [b"-e", t]
    opt = {"scan": [], "lines": [b"-l"], "match": [b"-m"], "parse": [b"-p"], "noprod": [b"-x"], "ast": [b"-a"]}[mode]
    force = rng.choice(["", "", "", "16", "b"])
    ic = force != "b" and rng.random() < 0.25
    opt += {"": [], "16": [b"-16"], "b": [b"-b"]}[force] + ([b"-i"] if ic else [])
    for o in (b"--no-cache", b"--no-bitmap", b"--no-optimizations"):
        if rng.random() < 0.25:
            opt.append(o)

    def one(s16=True):
        """The bytes of a text, their encoding and whether they are marked."""
        s = ""
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if mode in ("scan", "lines") else rng.choice([0, 1, 1, 1])):
            s += gen.text(items, root, rng.choice([3, 6, 9])) + rng.choice(["", "\n", "\n", " ", "\n\n", "\r\n"] if mode in ("scan", "lines") else ["", "", "\n"])
        e = 2 if force == "16" else 1 if force == "b" else 2 if s16 and rng.random() < 0.2 else 0
        if e == 2:
            b = s.encode("utf-16le")
            if force != "16" or rng.random() < 0.5:
                b = b"\xff\xfe" + b
            elif b[:2] == b"\xff\xfe":
                return one(s16)
            if rng.random() < 0.08:
                b += b"a"
        else:
            b = s.encode()
            if e == 1 and not s.isascii():
                return one(s16)
        return b, e, s
    gs, inp, stdin = [], [], b""
    y = rng.random()
    todo = []
    if y < 0.3:
        b, e, s = one()
        todo.append((b, e))
        if mode == "lines" and b[:2] != b"\xff\xfe" and b and rng.random() < 0.25:       # longer than one reading
            b = (b + ("\n" + s).encode("utf-16le" if e == 2 else "utf-8")) * (rng.randint(250, 1100) // len(b) // 2)
        stdin = b
        gs = [[{"n": [], "b": list(b)}]]
    else:
        if y < 0.5 and force != "16":
            for _ in range(rng.choice([1, 1, 2])):
                b, e, s = one(False)
                if b and b"\0" not in b:
                    inp += [b"-s", b]
                    gs.append([{"n": [], "b": list(b)}])
                    todo.append((b, e))
                    if s.isalnum() and s.isascii() and rng.random() < 0.4:
                        files.setdefault(s, one(False)[0])
        if not inp or y > 0.45:
            for k in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.25:
                    g = []
                    for m in range(rng.choice([1, 2, 3])):
                        f = rng.choice(["d%d/f%d", "d%d/s/f%d", "d%d/u/t/f%d"]) % (k, m)
                        b, e, s = one()
                        files[f] = b
                        g.append({"n": list(f.encode()), "b": list(b)})
                        todo.append((b, e))
                    gs.append(g)
                    inp.append(b"d%d" % k + rng.choice([b"", b"/"]))
                else:
                    b, e, s = one()
                    files["f%d" % k] = b
                    gs.append([{"n": list(b"f%d" % k), "b": list(b)}])
                    todo.append((b, e))
                    inp.append(b"f%d" % k)
            if rng.random() < 0.1:
                inp.append(b"none")
    for b, e in todo:
        if not b and any(it.get("d") == "abort" for it in items):       # whether an empty file is parsed at all is left open
            return None
        if e == 2 and b[:2] == b"\xff\xfe":
            b = b[2:]
        if len(b) > 60 or not rpa.Case(items, "", root, b, e, ic, ops=("all",) if mode in ("scan", "lines") else ("parse",)).cheap():
            return None
    quiet = rng.random() < 0.04
    parts = [opt + ([b"-q"] if quiet else []), fargs, eargs, inp]
    if rng.random() < 0.4:
        rng.shuffle(parts)
    head = {"items": items, "inp": [], "from": 0, "enc": 0, "ic": False, "root": root + 1, "scan": False}
    broken = rng.random() < 0.05
    if broken:
        k = rng.randint(0, len(eargs) // 2) * 2
        eargs[k:k] = [b"-e", rng.choice([b"x ::= (", b"]", b"x ::= 'a", b"y ::= <", b"a ::= b )\n"])]
        steps = [[o for o in opt] + fargs + eargs + inp]
        return Job(n, steps, files, stdin, lambda out, x: dict(head, obs=[{"op": "notool", "out": list(out), "x": x}]))
    nb = [list(it["n"].encode()) for it in items]
    return Job(n, [sum(parts, [])], files, stdin,
               lambda out, x: dict(head, obs=[{"op": "tool", "mode": mode, "force": force, "ic": ic, "gs": gs, "nb": nb, "quiet": quiet, "out": list(out), "x": x}]))


def t02(ck):
    exe = build_tool("rpagrep", ["rlib", "rvm", "rpa"])
    jobs = []
    while len(jobs) < ck.n(1600, 14000):
        j = pgrep_job(ck.rng, len(jobs))
        if j:
            jobs.append(j)
    run_jobs(ck, "rpagrep", "RpaJudge", exe, jobs)
    ck.assumptions = ["texts up to 60 bytes, grammars up to 3 rules and an anonymous one"]


CHECKS["T02"] = t02

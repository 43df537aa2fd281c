"""Common machinery: build /repo, run drivers, let TLC judge, write evidence.

Exit codes of a check: 0 held, 1 violation, 2 the machinery itself failed (no answer)."""
import os, sys, json, subprocess, tempfile, shutil, time, glob, random, threading, hashlib, atexit, re, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NPROC = 8


class MachineryError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="rpatkv.")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    return _scratch


def tla_classpath():
    cp = [JAR]
    cp += glob.glob("/opt/veriftools/tla/CommunityModules*.jar")
    return ":".join(cp)


# ------------------------------------------------------------------ building
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


_lib = {}
DEFAULT_FLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"]


def build_lib(flags=None, tag="asan"):
    """Compiles every library source of the working tree into one archive, in the scratch directory."""
    if tag in _lib:
        return _lib[tag]
    flags = DEFAULT_FLAGS if flags is None else flags
    out = os.path.join(scratch(), "lib-" + tag)
    os.makedirs(out, exist_ok=True)
    srcs = []
    for d in ("rlib", "rvm", "rpa", "rex"):
        srcs += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    if not srcs:
        raise MachineryError("no sources in " + REPO)

    def comp(s):
        o = os.path.join(out, s[len(REPO) + 1:].replace("/", "_")[:-2] + ".o")
        r = sh(["gcc", "-c", "-w", "-D_GNU_SOURCE", "-I" + REPO, "-I" + REPO + "/arch/unix"] + flags + [s, "-o", o])
        if r.returncode:
            raise MachineryError("compile failed: %s\n%s" % (s, r.stderr.decode(errors="replace")[-2000:]))
        return o
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(comp, srcs))
    ar = os.path.join(out, "lib.a")
    r = sh(["ar", "rcs", ar] + objs)
    if r.returncode:
        raise MachineryError("ar failed")
    _lib[tag] = (ar, flags)
    return _lib[tag]


def build_harness(name, flags=None, tag="asan", extra=(), srcs=(), libs=(), uselib=True):
    """Compiles /verif/harness/<name> (.c or .cc) against the working tree."""
    lib, fl = build_lib(flags, tag) if uselib else (None, DEFAULT_FLAGS if flags is None else flags)
    src = os.path.join(HARN, name)
    cc = "g++" if name.endswith(".cc") else "gcc"
    exe = os.path.join(scratch(), name.rsplit(".", 1)[0] + "-" + tag)
    cmd = [cc, "-w", "-D_GNU_SOURCE", "-I" + HARN, "-I" + REPO, "-I" + REPO + "/arch/unix"] + list(fl) + list(extra) + \
          [src] + list(srcs) + ([lib] if lib else []) + ["-o", exe, "-lpthread", "-lm"] + list(libs)
    r = sh(cmd)
    if r.returncode:
        raise MachineryError("harness build failed: %s\n%s" % (name, r.stderr.decode(errors="replace")[-3000:]))
    return exe


# ------------------------------------------------------------------ running cases
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C.UTF-8")


def _limit(mem_gb=None):
    import resource
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def answer(d):
    return (d["r"], d["a"]) if "H_MEM" in ENV else d["r"]


def run_one(exe, line, timeout=20, args=()):
    """One case in a process of its own. Returns (result or None, reason)."""
    p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=ENV, preexec_fn=_limit(), start_new_session=True)
    try:
        o, e = p.communicate((line + "\n").encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "hang: no answer within %ds" % timeout
    if p.returncode != 0:
        txt = e.decode(errors="replace")
        m = re.search(r"SUMMARY: (.*)", txt) or re.search(r"(runtime error: .*)", txt) or re.search(r"(Assertion.*)", txt)
        return None, "crash: rc=%d %s" % (p.returncode, m.group(1)[:200] if m else txt[-200:])
    try:
        return answer(json.loads(o.decode(errors="replace").splitlines()[0])), None
    except Exception as ex:
        return None, "crash: unreadable answer %r" % (o[:200],)


class Hangs(Exception):
    """The code hangs on so many lines that running the rest would take for ever: the lines found."""


def run_lines(exe, lines, timeout=20, args=(), shards=NPROC, maxhangs=6):
    """Runs every line; returns a list of (result, reason). A crash or hang restarts the driver behind the line.
    After the first line that hangs again and again the patience with others is shorter."""
    n = len(lines)
    hung = []
    res = [None] * n
    if n == 0:
        return res
    chunks = [list(range(i, n, shards)) for i in range(min(shards, n))]

    def work(idx):
        pos = 0
        while pos < len(idx) and len(hung) < maxhangs:
            part = idx[pos:]
            tmo = min(timeout, 6) if hung else timeout
            p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 env=ENV, preexec_fn=_limit(), start_new_session=True)
            data = ("\n".join(lines[i] for i in part) + "\n").encode()

            def feed():
                try:
                    p.stdin.write(data)
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            th = threading.Thread(target=feed, daemon=True)
            th.start()
            last = [time.time()]
            stop = [False]

            def watch():
                while not stop[0]:
                    if time.time() - last[0] > tmo:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        return
                    time.sleep(0.25)
            wt = threading.Thread(target=watch, daemon=True)
            wt.start()
            k = 0
            for raw in p.stdout:
                last[0] = time.time()
                if k >= len(part):
                    break
                try:
                    res[part[k]] = (answer(json.loads(raw.decode(errors="replace"))), None)
                except Exception:
                    break
                k += 1
            stop[0] = True
            p.stdout.close()
            p.wait()
            th.join(1)
            pos += k
            if k < len(part):
                i = part[k]
                r = run_one(exe, lines[i], tmo if hung else timeout, args)
                if r[0] is None:        # must repeat
                    r = run_one(exe, lines[i], timeout if not hung else tmo, args)
                res[i] = r
                if r[1] and r[1].startswith("hang"):
                    hung.append((lines[i], r[1]))
                pos += 1
    with ThreadPoolExecutor(shards) as ex:
        list(ex.map(work, chunks))
    if len(hung) >= maxhangs:
        raise Hangs(hung)
    return res


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=NPROC, timeout=800, extra=(), specdir=None, heap="6g", deadlock_ok=True):
    """Runs TLC on spec/<module>.tla with the given configuration text. Returns (stdout, stats)."""
    d = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", tla_classpath(), "tlc2.TLC", "-nowarning", "-metadir", os.path.join(d, "states"),
           "-workers", str(workers)] + (["-deadlock"] if deadlock_ok else []) + list(extra) + \
          ["-config", module + ".cfg", module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC ran out of time on " + module)
    out = r.stdout.decode(errors="replace")
    st = {"states": 0, "distinct": 0, "rc": r.returncode}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        st["states"], st["distinct"] = int(m.group(1)), int(m.group(2))
    shutil.rmtree(d, ignore_errors=True)
    return out, st


def errs(out):
    """the part of TLC's output that says what went wrong"""
    k = [i for i in (out.find("Error:"), out.find("Semantic errors"), out.find("***Parse Error"), out.find("Fatal errors")) if i >= 0]
    return out[min(k):][:2500] if k else out[-2500:]


class EvalError(Exception):
    def __init__(self, text, i):
        super().__init__(text)
        self.i = i


def stuck_at(out, var):
    """A recording so far from the specification that TLC cannot evaluate it: which one? (None: another error)"""
    if "The behavior up to this point is" not in out or "Semantic error" in out or "Parse Error" in out:
        return None
    m = re.findall(r"^/\\ %s = (\d+)" % var, out, re.M)
    return int(m[-1]) if m else None


def judge(module, cases, *a, **kw):
    """judge1, where a case TLC cannot evaluate at all (observations without sense) counts as rejected."""
    bad, left = [], list(range(len(cases)))
    while True:
        try:
            rej, st = judge1(module, [cases[i] for i in left], *a, **kw)
            st["explain"] = {left[i]: t for i, t in st.get("explain", {}).items()}
            break
        except EvalError as e:
            if not 1 <= e.i <= len(left):
                raise MachineryError(str(e))
            bad.append((left[e.i - 1], str(e)))
            del left[e.i - 1]
            if len(bad) >= 6:
                rej, st = [], {"states": 0, "distinct": 0, "explain": {}}
                break
    for i, t in bad:
        st["explain"][i] = "not even readable: " + t[-600:]
    return sorted([left[i] for i in rej] + [i for i, _ in bad]), st


def judge1(module, cases, groups=None, const="", timeout=800, chunk=None):
    """cases: list of dicts (JSON). The module (EXTENDS Judge) defines Conforms(c). Returns the rejected indexes, stats.

    The module must print <<"REJECT", index>> for each rejected case and every case must be visited."""
    if not cases:
        return [], {"states": 0, "distinct": 0}
    f = os.path.join(scratch(), "cases-%s-%d.ndjson" % (module, time.time_ns()))
    with open(f, "w") as fh:
        for c in cases:
            fh.write(json.dumps(c, separators=(",", ":")) + "\n")
    g = min(groups or 4 * NPROC, len(cases))
    cfg = "SPECIFICATION JSpec\nCONSTANTS\n  G = %d\n%s\nCHECK_DEADLOCK FALSE\n" % (g, const)
    out, st = tlc(module, cfg, env={"CASES": f}, timeout=timeout)
    os.unlink(f)
    if st["rc"] != 0 or "Model checking completed. No error has been found" not in out:
        i = stuck_at(out, "i")
        if i is not None:           # the last state is the case before it in its group
            i = i + g if i else stuck_at(out, "g")
            raise EvalError("TLC failed on %s:\n%s" % (module, errs(out)), i)
        raise MachineryError("TLC failed on %s:\n%s" % (module, errs(out)))
    if st["distinct"] != len(cases) + g:
        raise MachineryError("TLC visited %d of %d cases of %s\n%s" % (st["distinct"] - g, len(cases), module, out[-2000:]))
    rej = sorted({int(m.group(1)) for m in re.finditer(r'<<\s*"REJECT",\s*(\d+)', out)})
    expl = {}
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)>>\s*$', out, re.S | re.M):
        expl.setdefault(int(m.group(1)) - 1, m.group(2)[:2000])
    st["explain"] = expl
    return [i - 1 for i in rej], st


def tracecheck(module, traces, *a, **kw):
    """tracecheck1, where a trace TLC cannot evaluate at all (answers without sense) counts as refused."""
    bad, left = [], list(range(len(traces)))
    while True:
        try:
            rej, st = tracecheck1(module, [traces[i] for i in left], *a, **kw)
            st["stuck"] = {left[i]: t for i, t in st.get("stuck", {}).items()}
            break
        except EvalError as e:
            if not 1 <= e.i <= len(left):
                raise MachineryError(str(e))
            bad.append((left[e.i - 1], str(e)))
            del left[e.i - 1]
            if len(bad) >= 6:
                rej, st = [], {"states": 0, "distinct": 0, "stuck": {}}
                break
    for i, t in bad:
        st["stuck"][i] = "not even readable: " + t[-600:]
    return sorted([left[i] for i in rej] + [i for i, _ in bad]), st


def tracecheck1(module, traces, const="", timeout=800, workers=NPROC):
    """traces: list of lists of events. The module starts one behaviour per trace and prints <<"DONE", t>> when it
    has consumed the whole trace t. Returns indexes of the traces that never finish, with how far they got."""
    if not traces:
        return [], {"states": 0, "distinct": 0}
    f = os.path.join(scratch(), "traces-%s-%d.ndjson" % (module, time.time_ns()))
    with open(f, "w") as fh:
        for c in traces:
            fh.write(json.dumps({"ev": c} if isinstance(c, list) else c, separators=(",", ":")) + "\n")
    cfg = "SPECIFICATION TSpec\n%s\nCHECK_DEADLOCK FALSE\n" % (("CONSTANTS\n" + const) if const else "")
    out, st = tlc(module, cfg, env={"TRACES": f}, timeout=timeout, workers=workers)
    os.unlink(f)
    if st["rc"] != 0 or "Model checking completed. No error has been found" not in out:
        i = stuck_at(out, "t")
        if i is not None:
            raise EvalError("TLC failed on %s:\n%s" % (module, errs(out)), i)
        raise MachineryError("TLC failed on %s:\n%s" % (module, errs(out)))
    done = {int(m.group(1)) for m in re.finditer(r'<<\s*"DONE",\s*(\d+)', out)}
    st["stuck"] = {}
    for m in re.finditer(r'<<\s*"STUCK",\s*(\d+),\s*(.*?)>>\s*$', out, re.S | re.M):
        st["stuck"].setdefault(int(m.group(1)) - 1, m.group(2)[:600])
    return [i for i in range(len(traces)) if i + 1 not in done], st


def modelcheck(module, cfg, timeout=800, workers=NPROC, extra=(), env=None):
    """Exhaustive check of a model; a failing model is a machinery error (the specification is wrong)."""
    out, st = tlc(module, cfg, timeout=timeout, workers=workers, extra=extra, env=env)
    if st["rc"] != 0 or "Model checking completed. No error has been found" not in out:
        raise MachineryError("the model %s does not hold:\n%s" % (module, errs(out)))
    return out, st


def edges(out):
    """Transitions printed by an ACTION_CONSTRAINT as  EDGE <json> ."""
    r = []
    for m in re.finditer(r'^"EDGE (.*)"$', out, re.M):
        r.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    return r


def tours(edge_list, init, key=lambda s: json.dumps(s, sort_keys=True), maxlen=60):
    """Paths from init covering every edge. edges: (src, label, dst)."""
    from collections import deque, defaultdict
    succ = defaultdict(list)
    for i, (a, l, b) in enumerate(edge_list):
        succ[key(a)].append((i, l, key(b)))
    todo = set(range(len(edge_list)))
    k0 = key(init)
    # shortest path tree
    paths = []
    while todo:
        cur, path, used = k0, [], 0
        while len(path) < maxlen:
            nxt = [(i, l, b) for (i, l, b) in succ[cur] if i in todo]
            if nxt:
                i, l, b = nxt[0]
                todo.discard(i)
                path.append(l)
                cur = b
                used += 1
                continue
            # BFS to the nearest state with an uncovered edge
            seen = {cur: None}
            q = deque([cur])
            goal = None
            while q:
                u = q.popleft()
                if any(i in todo for (i, _, _) in succ[u]):
                    goal = u
                    break
                for (i, l, b) in succ[u]:
                    if b not in seen:
                        seen[b] = (u, l)
                        q.append(b)
            if goal is None:
                break
            back = []
            u = goal
            while seen[u] is not None:
                back.append(seen[u][1])
                u = seen[u][0]
            if len(path) + len(back) + 1 > maxlen and path:
                break
            path += reversed(back)
            cur = goal
        if used == 0:
            break       # unreachable rest
        paths.append(path)
    return paths


# ------------------------------------------------------------------ known findings
def known_findings():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", l)
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


# ------------------------------------------------------------------ one check
class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.trans = self.ntraces = 0
        self.samples = []
        self.viol = []
        self.known = []
        self.notes = {}
        self.assumptions = []
        self.level = "model_checking"

    @property
    def quick(self):
        return self.tier == "quick"

    def n(self, q, t):
        return q if self.quick else t

    def add(self, st):
        self.states += st.get("distinct", 0)
        self.trans += st.get("states", 0)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:600])

    def violation(self, what, replay):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(replay, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.prop, h))
        key = replay.get("key") if isinstance(replay, dict) else None
        for (p, k, txt) in known_findings():
            if p == self.prop and key is not None and k == key:
                if k not in [x[0] for x in self.known]:
                    self.known.append((k, txt))
                return
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "replay": replay}, f, indent=1, default=str)
        self.viol.append((what, path))

    def finish(self):
        for k, txt in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, txt))
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.ntraces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if self.viol:
            ev["violations"] = len(self.viol)
            cov["violation_list"] = [{"what": w[:500], "replay": p} for w, p in self.viol[:20]]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w, p in self.viol[:20]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + w[:400])
        print("%s %s: states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs" % (
            self.prop, self.tier, self.states, self.trans, self.ntraces, len(self.viol), len(self.known), time.time() - self.t0))
        return 1 if self.viol else 0


def hx(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    return b.hex() if b else "-"

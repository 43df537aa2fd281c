"""Collects the driver lines other checks would run, without running them: histories of every component."""
import random
import vlib


class _Stub:
    def __init__(self, seed, part):
        self.seed, self.part = seed, part
        self.rng = random.Random(seed)
        self.quick = True
        self.notes, self.assumptions = {}, []
        self.ntraces = 0

    def n(self, q, t):
        return max(2, q // self.part) if isinstance(q, int) and q > 20 else q

    def __getattr__(self, name):
        return lambda *a, **k: None


def collect(check_ids, modules, seed, limit, part=4):
    """-> [(check, driver, line)], at most `limit` of each check."""
    out = []
    cur = [None]
    got = []

    def build_harness(name, *a, **k):
        return name

    def run_lines(exe, lines, *a, **k):
        got.extend((exe, l) for l in lines)
        return [(None, "only collected")] * len(lines)

    def nothing(*a, **k):
        return [], {"states": 0, "distinct": 0, "explain": {}, "stuck": {}}
    fake = {"run_one": lambda *a, **k: (None, "only collected"), "build_harness": build_harness, "run_lines": run_lines, "judge": nothing, "tracecheck": nothing,
            "modelcheck": lambda *a, **k: ("", {"states": 0, "distinct": 0})}
    saved = []
    for m in modules:
        for k, f in fake.items():
            if hasattr(m, k):
                saved.append((m, k, getattr(m, k)))
                setattr(m, k, f)
    try:
        for c in check_ids:
            fn = next(m.CHECKS[c] for m in modules if c in m.CHECKS)
            rng = random.Random("%s %s" % (seed, c))
            got.clear()
            try:
                fn(_Stub(seed, part))
            except Exception as e:          # it needs answers to go on
                if not got:
                    raise vlib.MachineryError("collecting the lines of %s: %r" % (c, e))
            if len(got) > limit:
                got = rng.sample(got, limit)
            out += [(c, x, l) for x, l in got]
            got = []
    finally:
        for m, k, f in saved:
            setattr(m, k, f)
    return out

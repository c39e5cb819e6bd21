"""Differential checks of control-flow programs: simulated interpreter vs reference machine."""
import json, re
from vf import core, gen, model
from vf.engine import Prop, Outcome
from vf.model import S, src

FUEL = 60000
BUDGET = 2000000


def gc_knobs(rng, strong=False):
    """a collection schedule for one run"""
    x = rng.random()
    if x < (.15 if strong else .45):
        return {}
    k = {"gc_mode": 1, "poison": 1, "perturb": rng.choice([0, 165])}
    y = rng.random()
    if y < .6:
        k["gc_rate"] = rng.choice([60, 300, 1500, 6000])
    elif y < .75:
        k["gc_every"] = rng.choice([1, 3, 7, 25])
        k["gc_start"] = rng.randint(0, 3000)
        k["gc_burst_at"] = -1
        k["cpu_s"] = 30
    else:
        k["gc_burst_at"] = rng.randint(0, 6000)
        k["gc_burst_len"] = rng.randint(1, 60)
    k["seed"] = rng.getrandbits(31)
    return k


def split_forms(text):
    return [src(f) for f in model.read_all(text)]


def spec_of(case):
    pre = case.get("pre", gen.PRELUDE)
    text = pre + "\n".join(case["forms"]) + "\n"
    spec = {"files": {"/p.scm": text}, "args": ["pscm", "/p.scm"], "knobs": dict({"cpu_s": 20, "budget": BUDGET}, **case.get("knobs", {}))}
    spec["files"].update(case.get("files", {}))
    for p, fs in case.get("loads", {}).items():
        spec["files"][p] = "\n".join(fs) + "\n"
    if case.get("ticks"):
        spec["faulty"] = {"/t/%d" % i: "" for i in range(1, case["ticks"] + 1)}
    if "plan" in case:
        spec["plan"] = case["plan"]
    if "gcplan" in case:
        spec["gcplan"] = case["gcplan"]
    return spec


def parse_loads(case):
    """the files a program loads, as the model evaluates them"""
    return {p: [x for f in fs for x in model.read_all(f)] for p, fs in case.get("loads", {}).items()}


def user_lines(r):
    """program output without the module system's own chatter; opaque objects print alike"""
    ls = norm_opaque(r.text()).split("\n")
    return [l for l in ls if not l.startswith("[symtbl]")]


class ControlProp(Prop):
    weights = {}
    faults = True
    strong_gc = False
    ticks = 120
    forms_range = (2, 4)
    depths = (4, 5, 6, 7)
    sizes = (20, 40, 60)
    any = .35
    nprom = 2
    chunk = 10
    cases = {"quick": 9000, "thorough": 250000}
    rule = ("each case is a random program over call/cc, dynamic-wind, catch/throw, promises, loops, files it loads, evaluated data, macros, quasiquotation, table folds and data operations (sizes 20-60), run under a seeded collection "
            "schedule and, for a third of the cases, seeded open failures inside `touch`; its output is compared line by line with the reference machine. Non-trivial: "
            "the reference run performed at least one transition this property is about (see probes); distinct by event-log digest")
    interesting = ()

    def genprog(self, rng):
        g = gen.Gen(rng, dict({"load": 3}, **self.weights), size=rng.choice(self.sizes), any=self.any, nprom=self.nprom)
        g.mtab = True
        forms = [src(f) for f in g.program(forms=rng.randint(*self.forms_range), depth=rng.choice(self.depths))]
        return forms, {p: [src(f) for f in b] for p, b in g.loads.items()}

    def gen(self, rng, idx, tier):
        forms, loads = self.genprog(rng)
        knobs = gc_knobs(rng, self.strong_gc)
        if self.faults and rng.random() < .35:
            knobs["io_mode"] = 1
            knobs.setdefault("seed", rng.getrandbits(31))
            knobs[rng.choice(["p_open_EMFILE", "p_open_EACCES"])] = rng.choice([100, 300, 700])
        case = {"forms": forms, "knobs": knobs, "ticks": self.ticks}
        if loads:
            case["loads"] = loads
        if any("mtab" in f for f in forms):
            case["files"] = gen.MTAB_FILES
        return case

    def model_run(self, case, failing):
        m = model.Machine(fuel=FUEL)
        m.files = parse_loads(case)
        m.failing = failing
        for f in case["forms"]:
            for x in model.read_all(f):
                m.run_form(x)
        return m

    def expected_text(self, m):
        return "".join(l + "\n" for l in m.out)

    def failing(self, r):
        s = set()
        for f in r.faults:
            w = f.split(" ", 4)
            if w[1] == "open" and w[4].startswith("/t/"):
                s.add(int(w[4][3:]))
        return s

    def evaluate(self, ctx, case):
        # the model must finish within its fuel for the fault-free run or the case says nothing
        m = None
        try:
            m = self.model_run(case, set())
        except Exception:  # too long, or a malformed candidate of the minimiser
            return Outcome(None, True, "long", {"skipped-long": 1})
        r = ctx.run(spec_of(case))
        try:
            if r.faults:
                m = self.model_run(case, self.failing(r))
        except Exception:  # too long, or a malformed candidate of the minimiser
            return Outcome(None, True, r.digest, {"skipped-long": 1})
        return self.judge(case, r, m)

    def judge(self, case, r, m):
        probes = dict(m.probes)
        for why in ("unbound", "opaque-shown", "guard-throw-in"):
            if m.probes.get(why):
                return Outcome(None, True, r.digest, {"skipped-" + why: 1})
        if m.glob.d.get(S("tick")) and m.glob.d[S("tick")] > self.ticks:
            return Outcome(None, True, r.digest, {"skipped-ticks": 1})
        v = None
        if r.kind != "exit":
            v = "ended: the interpreter ended with %s (%s)" % (r.kind, r.err[-200:].decode("utf8", "replace"))
        elif r.status != 0:
            v = "status: exit status %d: %s" % (r.status, r.err[-200:].decode("utf8", "replace"))
        else:
            got = "\n".join(user_lines(r))
            exp = norm_opaque(self.expected_text(m))
            if got != exp:
                v = diff(exp, got)
        if r.gcs:
            probes["gc-runs"] = 1
        if r.faults:
            probes["fault-runs"] = 1
        triv = bool(self.interesting) and not any(m.probes.get(p) for p in self.interesting)
        return Outcome(v, triv, r.digest, probes)

    def concretise(self, ctx, case):
        r = ctx.run(spec_of(case))
        s = core.explicit(spec_of(case), r)
        c = dict(case)
        c["knobs"] = {k: v for k, v in s["knobs"].items() if not k.startswith(("p_", "gc_rate", "gc_burst", "gc_start", "gc_every"))}
        if "plan" in s:
            c["plan"] = {str(k): list(v) for k, v in s["plan"].items()}
        if "gcplan" in s:
            c["gcplan"] = s["gcplan"]
        return c

    def shrinks(self, case):
        return shrink_case(case)


def norm_opaque(t):
    return re.sub(r"#<[^<>]*>", "#<>", t) if "#<" in t else t


def diff(exp, got):
    a, b = exp.split("\n"), got.split("\n")
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "output: line %d should be %r, got %r" % (i + 1, x[:200], y[:200])
    if len(a) > len(b):
        return "output: ends early after %d lines; next should be %r" % (len(b) - 1, a[len(b) - 1][:200])
    return "output: %d extra lines, first %r" % (len(b) - len(a), b[len(a) - 1][:200])


def shrink_case(case):
    """candidates for delta debugging"""
    c = case
    if c.get("gcplan"):
        g = c["gcplan"]
        yield dict(c, gcplan=[], knobs={k: v for k, v in c["knobs"].items() if not k.startswith("gc_") and k not in ("poison", "perturb")})
        n = len(g)
        for parts in (2, 4, 8, 16):
            if n >= parts:
                for i in range(parts):
                    yield dict(c, gcplan=g[:i * n // parts] + g[(i + 1) * n // parts:])
        if n <= 12:
            for i in range(n):
                yield dict(c, gcplan=g[:i] + g[i + 1:])
    if c.get("plan"):
        yield dict(c, plan={})
        for k in list(c["plan"]):
            yield dict(c, plan={x: v for x, v in c["plan"].items() if x != k})
    for p, fs in c.get("loads", {}).items():
        for i, f in enumerate(fs):
            if len(fs) > 1:
                yield dict(c, loads=dict(c["loads"], **{p: fs[:i] + fs[i + 1:]}))
            for y in subs(model.read_all(f)[0]):
                if not model.wellformed(y):
                    continue
                yield dict(c, loads=dict(c["loads"], **{p: fs[:i] + [src(y)] + fs[i + 1:]}))
    fs = c["forms"]
    n = len(fs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            if size < n:
                yield dict(c, forms=fs[:i] + fs[i + size:])
        size //= 2
    for i, f in enumerate(fs):
        try:
            x = model.read_all(f)[0]
        except Exception:
            continue
        for y in subs(x):
            if not model.wellformed(y):
                continue
            yield dict(c, forms=fs[:i] + [src(y)] + fs[i + 1:])


def subs(x):
    """x with one sub-expression replaced by one of its own parts, a constant, or dropped"""
    if not isinstance(x, list):
        return
    for i, e in enumerate(x):
        if isinstance(e, list) and i > 0:
            if not (x[0] in ("lambda", "define") and i == 1) and e[:1] not in ([S("lambda")], [S("quote")]):
                yield x[:i] + [1] + x[i + 1:]
                for s in e[1:]:
                    if isinstance(s, list):
                        yield x[:i] + [s] + x[i + 1:]
            if i > 1 and len(x) > 3:
                yield x[:i] + x[i + 1:]
        for y in subs(e):
            yield x[:i] + [y] + x[i + 1:]

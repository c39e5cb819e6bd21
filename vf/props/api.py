"""The embedding API: histories of calls an application makes, with failing programs, malformed text and file faults."""
import re
from vf import core, gen, model
from vf.control import ControlProp, gc_knobs, user_lines, norm_opaque, diff, subs, FUEL, BUDGET
from vf.engine import Prop, Outcome
from vf.model import S, Str, src, Prim, ERR, NIL, mklist, k_catch

NSLOT = 16

# special forms and calls that are not well-formed: whatever they do, the call has to come back
HEADS = ["quote", "quasiquote", "if", "lambda", "set!", "begin", "let", "let*", "letrec", "and", "or", "cond", "case", "do", "delay", "call/cc", "dynamic-wind", "catch",
         "throw", "apply", "map", "for-each", "force", "values", "call-with-values", "eval", "primitive-load", "assv", "assq", "vector-ref", "string-append", "list-tail", "hash-ref",
         "append", "length", "substring", "string-ref", "number->string", "symbol->string", "char->integer", "apply", "macroexpand", "with-output-to-string", "read", "open-input-file"]
ATOMS = ["", "5", "()", "zz", "\"s\"", "#t", "(zz)", "(1 2)", "((zz 1))", "((zz))", "(())", "((1 2))", "'zz", "(zz . yy)", "(lambda (zz) zz)", "(else)", "(=> car)", "((zz 1 2))",
         "(zz . 5)", "(lambda 5 5)", "(quote)", "(if)", "#(1 2)", "'()", "(list 1 2)", "(throw 'ta 1)", "(make-vector 2 0)"]
# text that is certainly an error
WRONG = ["(let ((zs 'zs)) (zs))", "(let ((zl '(zl 1))) (zl 1))", "('car '(1))", "(set! 5 3)", "(set! zz)", "(if)", "(let)", "(let ((zz)) zz)", "(let* ((a 1)))", "(letrec 5 5)", "(lambda)", "(cond)", "(cond 5)", "(case)", "(do)", "(dynamic-wind)",
         "(for-each)", "(car '())", "(vector-ref (vector 1) 5)", "(no-such-procedure 1)", "no-such-variable", "(error \"boom\")", "(5 5)", "(throw 'error \"m\")", "((lambda (a) a))",
         "((lambda (a) a) 1 2)", "(car)", "(car 1 2)", "(eval '(car 5) (current-module))", "(primitive-load \"/none.scm\")", "(string->symbol 5)"] + gen.MISUSE
BROKEN = ["", "   ", "(", ")", "(+ 1 2", "1 2", "(car '(1)) extra", "'", "#", "(1 . )", "#(1 2", "; only a comment", "(a . b c)", "(quote", "\x01", "(+ 1 2))"]


STORM = WRONG + BROKEN[2:] + ["(let loop ((i 0)) (if (< i 30) (+ 1 (loop (+ i 1))) (car 5)))", "(dynamic-wind (lambda () 0) (lambda () (throw 'ta 1)) (lambda () 0))",
                              "(catch 'tb (lambda () (throw 'ta 1)) (lambda a 0))", "(catch #t (lambda () (car 5)) (lambda (k . a) (throw k 1)))", "(host-throw 'ta 1)", "(+ 1 (host-throw 'ta 1))",
                              "(map (lambda (x) (for-each (lambda (y) (car y)) (list x))) (list 1 2))", "(apply (lambda (x) (force (delay (throw 'ta x)))) (list 1))",
                              "(begin (host-call (lambda () (car 5))) (host-catch 'tb (lambda () (throw 'ta 1))))", "(hash-for-each (lambda (k v) (throw 'ta k)) (let ((h (make-hash-table 3))) (hash-set! h 1 1) h))",
                              "(with-output-to-string (lambda () (throw 'ta 1)))", "(call/cc (lambda (k) (catch 'tb (lambda () (k (car 5))) (lambda a 0))))"]


class ApiGen(gen.Gen):
    hosted = 0

    def hnum(self, x):
        return [S("hnum"), x]

    def e_hosteval(self, d, sc):
        if self.hosted > 2:
            return self.expr(d, sc)
        self.hosted += 1
        t = Str(src(self.expr(d, [])))
        self.hosted -= 1
        return self.hnum([S("host-eval"), t])

    def e_hostcall(self, d, sc):
        return self.hnum([S("host-call"), [S("lambda"), []] + self.body(d, sc)])

    def e_hostcatch(self, d, sc):
        n = self.n = self.n + 1
        x = [S("host-catch"), True if self.r.random() < .3 else self.tag(), [S("lambda"), []] + self.body(d, sc)]
        return [S("begin"), [S("emit"), gen.q(S("hc%d" % n)), x], self.expr(0, sc)] if self.r.random() < .4 else self.hnum(x)

    def e_hostthrow(self, d, sc):
        return [S("host-throw"), self.tag(), self.expr(d, sc)]

    def e_hostput(self, d, sc):
        return [S("host-put"), self.r.randint(12, 15), self.expr(d, sc)]

    def e_hostget(self, d, sc):
        return self.hnum([S("host-get"), self.r.randint(12, 15)])

    def e_hostopt(self, d, sc):
        return [S("car"), [S("host-opt")] + [self.expr(d, sc) for _ in range(self.r.randint(1, 3))]]

    def e_hv(self, d, sc):
        return self.hnum(S("hv%d" % self.r.randint(0, 2)))


HF = Prim("host-failed", lambda m, *a: S("failed"))
HC = Prim("host-caught", lambda m, key, *a: mklist([S("caught-by-host"), key]))


def p_hosteval(m, a, k):
    m.probe("host-eval")
    m.eval(model.read_all(a[0].v)[0], m.glob, (k_catch, (True, HF, m.winders), k))


def p_hostcall(m, a, k):
    m.probe("host-call")
    m.apply(a[0], [], (k_catch, (True, HF, m.winders), k))


def p_hostcatch(m, a, k):
    m.probe("host-catch")
    m.apply(a[1], [], (k_catch, (a[0], HC, m.winders), k))


def p_hostthrow(m, a, k):
    m.throw(a[0], [a[1]], k)


def p_hostput(m, i, v):
    m.slots[i % NSLOT] = v
    return v


HOST = {"host-eval": (p_hosteval, True), "host-call": (p_hostcall, True), "host-catch": (p_hostcatch, True), "host-throw": (p_hostthrow, True), "host-put": (p_hostput,),
        "host-get": (lambda m, i: m.slots.get(i % NSLOT, False),), "host-opt": (lambda m, a, *r: mklist([a, 1 + len(r)]),)}

HNUM = "(define (hnum x) (if (number? x) x 7))"
RESET = "(set! k0 #f) (set! k1 #f) (set! k2 #f)"
PRE = [l for l in gen.PRELUDE.strip().split("\n")]


def ast_of(text):
    return model.read_all(text)


class A01(ControlProp):
    id = "A01"
    chunk = 10
    cases = {"quick": 9000, "thorough": 400000}
    weights = {"hosteval": 5, "hostcall": 4, "hostcatch": 4, "hostthrow": 3, "hostput": 2, "hostget": 2, "hostopt": 1, "hv": 2, "throw": 5, "err": 4, "wind": 5, "catch": 4,
               "do": 0, "values": 0}
    rule = ("each case is a history of 6-40 API calls made by a simulated application from various depths of its stack: evaluating, parsing, loading files, defining, looking up, modules, with "
            "programs that call back into the application (which evaluates, calls, catches and throws in turn), programs that fail, malformed text, special forms of any shape, and open/read faults; "
            "every returned value, error key and output line is compared with the reference machine. Non-trivial: a call failed and another was made afterwards; distinct by event-log digest")

    def gen(self, rng, idx, tier):
        knobs = gc_knobs(rng)
        g = ApiGen(rng, self.weights, size=rng.choice([15, 30, 60]), any=.3, nprom=2)
        g.usemacros = g.usehtab = True
        prog = g.program(forms=1, depth=3)
        defs = [f for f in prog if isinstance(f, list) and f[0] in ("define", "define-macro")]
        ops = []
        for i in range(3):
            defs.append([S("define"), S("hv%d" % i), i])
        pre = PRE + [HNUM] + [src(f) for f in defs]
        files = {}
        if rng.random() < .4:
            ops.append(["depth", str(rng.choice([1, 5, 20, 60, 200, 500]))])
        if rng.random() < .5:
            files["/f/pre.scm"] = "\n".join(pre) + "\n1\n"
            ops.append(["file", "/f/pre.scm"])
        else:
            ops += [["any", t] for t in pre]

        def text():
            g.size = rng.choice([4, 10, 25])
            d = rng.choice([2, 4, 5])
            x = g.anyx(d, []) if rng.random() < .35 else g.expr(d, [])
            return "(begin %s %s)" % (RESET, src(x))

        def junk():
            t = "(%s %s)" % (rng.choice(HEADS), " ".join(rng.choice(ATOMS) for _ in range(rng.randint(0, 4))))
            return t.replace("(let zz ", "(let (zz) ")  # not an endless loop
        mods = {}
        parsed = set()
        nf = 0
        for _ in range(rng.choice([6, 12, 25, 40])):
            x = rng.random()
            if x < .3:
                ops.append(["eval", text()])
            elif x < .36:
                ops.append(["eval", rng.choice(WRONG)])
            elif x < .37:
                ops.append(["eval", rng.choice(['(throw \'ta "boom%d")', '(throw \'ta 5 "boom%d" 6)', '(catch \'tb (lambda () (throw \'ta "boom%d")) (lambda a 0))']) % rng.randint(0, 99)])
            elif x < .38:
                ops.append(["storm", "%d\n%s" % (rng.choice([5, 60] if knobs else [60, 300, 1200]), rng.choice(STORM))])
            elif x < .43:
                ops.append([rng.choice(["eval", "eval", "parse"]), rng.choice(BROKEN)])
                if ops[-1][0] == "parse":
                    ops[-1][1] = "0\n" + ops[-1][1]
            elif x < .5:
                ops.append(["any", junk()])
            elif x < .56:
                s = rng.randint(4, 7)
                ops.append(["parse", "%d\n%s" % (s, text())])
                parsed.add(s)
            elif x < .62 and parsed:
                ops.append(["run", str(rng.choice(sorted(parsed)))])
            elif x < .72:
                nf += 1
                f = "/f/%d.scm" % nf
                fs = [text() for _ in range(rng.randint(1, 4))]
                if rng.random() < .15:
                    fs.insert(rng.randint(0, len(fs)), rng.choice(["(", ")", "(1 . )", "#(1"]))
                elif rng.random() < .2:
                    fs.insert(rng.randint(0, len(fs)), rng.choice(WRONG))
                if rng.random() < .95:
                    files[f] = "\n".join(fs) + "\n"
                else:
                    fs = None
                for _ in range(rng.choice([1, 1, 2])):
                    ops.append([rng.choice(["file", "file", "pfile"]), f])
            elif x < .77:
                ops.append(["ceval", "\n".join(text() for _ in range(rng.randint(1, 3)))])
            elif x < .82:
                s = rng.randint(8, 11)
                ops.append(["keep", "%d\n%s" % (s, text())])
                if rng.random() < .7:
                    ops.append(["def", "%d\nhv%d" % (s, rng.randint(0, 2))])
            elif x < .85:
                ops.append(["show", str(rng.randint(8, 15))])
            elif x < .9:
                ops.append(["get", rng.choice(["g0", "g1", "hv0", "hv1", "hv2", "no-such-name", "fuel", "vec"])])
            elif x < .95:
                ops.append(["depth", str(rng.choice([0, 0, 1, 2, 5, 20, 100, 300]))])
            else:
                if len(mods) < 3 and rng.random() < .5:
                    s = rng.randint(0, 3)
                    n = "(host m%d)" % rng.randint(1, 3)
                    mods[s] = n
                    ops.append(["module", "%d\n%s" % (s, n)])
                if mods:
                    for _ in range(rng.randint(1, 4)):
                        s = rng.choice(sorted(mods))
                        v = rng.choice(["mv", "mw"])
                        y = rng.random()
                        if y < .4:
                            ops.append(["enter", "%d\n%s" % (s, rng.choice(["(define %s %d)" % (v, rng.randint(0, 99)), "(set! %s (+ %s 1))" % (v, v), v, "(list %s 1)" % v, "(car 5)", "(throw 'ta %s)" % v]))])
                        elif y < .7:
                            ops.append(["mdef", "%d\n%s\n%s" % (s, v, rng.choice(["%d" % rng.randint(100, 200), "(+ 1 2)", "(car 5)"]))])
                        else:
                            ops.append(["mget", "%d\n%s" % (s, v)])
        if rng.random() < .7:
            ops.append(["depth", "0"])
        ops.append(["eval", "(emit 'end (list g0 g1 g2 fuel vec))"])
        if rng.random() < .4:
            knobs["init_depth"] = rng.choice([1, 3, 10, 50, 200])
        if rng.random() < .4:
            knobs["io_mode"] = 1
            knobs.setdefault("seed", rng.getrandbits(31))
            for k in rng.sample(["p_open_EMFILE", "p_open_EACCES", "p_read_EIO", "p_read_EINTR", "p_read_SHORT"], 2):
                knobs[k] = rng.choice([50, 150, 400])
            knobs["io_skip"] = 1
        return {"forms": ["%s\n%s" % tuple(o) for o in ops], "src": files, "knobs": knobs, "ticks": 120}

    # ---- the run
    def spec(self, case):
        spec = {"files": dict(case["src"]), "args": ["client"], "knobs": dict({"cpu_s": 20, "budget": BUDGET, "mode": 1}, **case.get("knobs", {})),
                "client": [tuple(o.split("\n", 1)) if "\n" in o else (o, "") for o in case["forms"]]}
        spec["faulty"] = {f: spec["files"].pop(f) for f in case["src"] if f != "/f/pre.scm"}
        for i in range(1, case["ticks"] + 1):
            spec["faulty"]["/t/%d" % i] = ""
        for k in ("plan", "gcplan"):
            if k in case:
                spec[k] = case[k]
        return spec

    # ---- the reference
    def model_run(self, case, fails, ticks):
        """fails: per path, the list of failed (True/False) openings in order"""
        m = model.Machine(fuel=FUEL)
        m.failing = ticks
        m.slots = {}
        for n, p in HOST.items():
            m.glob.d[S(n)] = Prim(n, *p)
        parsed = {}
        mods = {}
        modslot = {}
        last = ""
        m.failed_calls = m.calls_after = 0

        def form(t):
            m.winders = None
            x = m.run_form(ast_of(t)[0])
            if isinstance(x[1], tuple) and x[1][0] == "uncaught":
                return None, x[1][1]
            return x[1], None

        def define(text):
            for f in ast_of(text):
                if not (isinstance(f, list) and isinstance(f[1], list) and f[1][0] in ("emit", "touch", "mvl")):
                    m.run_form(f)

        def value(i, v, key=None):
            nonlocal last
            m.calls_after += m.failed_calls > 0
            if key is not None:
                m.failed_calls += 1
                last = key
                m.out.append("op%d !! %s" % (i, "<error>" if key == ERR else model.show(key)))
            else:
                m.out.append("op%d => %s" % (i, "none" if v is model.UNSPEC else model.show(v)))

        def run(t):
            if t in WRONG or t in BROKEN:
                return None, ERR
            if '"boom' in t:
                return None, S("ta m " + t.split('"')[1])
            return form(t)

        def parses(fs):
            return not any(t in ("(", ")", "(1 . )", "#(1") for t in fs)

        for i, o in enumerate(case["forms"]):
            op, _, arg = o.partition("\n")
            a, _, b = arg.partition("\n")
            if op == "eval":
                value(i, *run(arg))
            elif op == "ceval":
                v = key = None
                for t in arg.split("\n"):
                    v, key = run(t)
                    if key is not None:
                        break
                if key is None:
                    value(i, v)
                else:
                    value(i, mklist([S("caught-by-host"), S("<error>") if key == ERR else key]))
            elif op == "storm":
                m.failed_calls += 1
                m.out.append("op%d storm %s" % (i, a))
            elif op == "any":
                if arg.startswith("(define"):
                    define(arg)
                m.out.append("op%d back" % i)
            elif op in ("file", "pfile"):
                src_ = case["src"].get(arg)
                bad = src_ is None
                q = fails.get(arg)
                if q:
                    bad = q.pop(0)
                if arg == "/f/pre.scm":
                    define(src_)
                    value(i, 1)
                    continue
                fs = None if bad else src_.strip("\n").split("\n")
                if bad or not parses(fs):
                    value(i, None, ERR)
                elif op == "file":
                    for t in fs:
                        v, key = run(t)
                        if key is not None:
                            break
                    value(i, v, key)
                else:
                    for t in fs:
                        value(i, *run(t))
                    m.out.append("op%d forms %d" % (i, len(fs)))
            elif op == "parse":
                if b in BROKEN:
                    value(i, None, ERR)
                else:
                    parsed[int(a) % NSLOT] = b
                    m.out.append("op%d parsed" % i)
            elif op == "run":
                s = int(a) % NSLOT
                if s in parsed:
                    value(i, *run(parsed[s]))
                else:
                    m.out.append("op%d !! *" % i)
            elif op == "keep":
                v, key = run(b)
                if key is None:
                    m.slots[int(a) % NSLOT] = v
                value(i, v, key)
            elif op == "show":
                value(i, m.slots.get(int(a) % NSLOT, False))
            elif op == "def":
                m.glob.d[S(b)] = m.slots.get(int(a) % NSLOT, False)
                m.out.append("op%d defined" % i)
            elif op == "get":
                v = m.glob.d.get(S(a))
                value(i, S("unbound") if v is None else v)
            elif op == "module":
                modslot[int(a)] = b
                mods.setdefault(b, {})
                m.out.append("op%d module" % i)
            elif op in ("enter", "mdef", "mget"):
                d = mods.get(modslot.get(int(a)))
                if d is None:
                    raise model.OutOfFuel()  # shrunk into nonsense
                if op == "mget":
                    value(i, d.get(b, S("unbound")))
                elif op == "mdef":
                    n, _, t = b.partition("\n")
                    if t == "(car 5)":
                        value(i, None, ERR)
                    else:
                        d[n] = 3 if t == "(+ 1 2)" else int(t)
                        value(i, d[n])
                else:
                    value(i, *self.enter(d, b))
            elif op == "depth":
                pass
        return m

    def enter(self, d, t):
        if t == "(car 5)":
            return None, ERR
        w = t.strip("()").split()
        if w[0] == "define":
            d[w[1]] = int(w[2])
            return model.UNSPEC, None
        v = "mv" if "mv" in t else "mw"
        if v not in d:
            return None, ERR
        if w[0] == "set!":
            d[v] += 1
            return model.UNSPEC, None
        if w[0] == "list":
            return mklist([d[v], 1]), None
        if w[0] == "throw":
            return None, S("ta")
        return d[v], None

    def evaluate(self, ctx, case):
        try:
            m = self.model_run(case, {}, set())
        except Exception:  # too long, or a malformed candidate of the minimiser
            return Outcome(None, True, "long", {"skipped-long": 1})
        r = ctx.run(self.spec(case))
        if r.kind == "exit" and r.status == 77:
            raise RuntimeError("the embedding client does not compile against this tree")
        if r.faults:
            try:
                m = self.model_run(case, self.file_fails(r), self.failing(r))
            except Exception:  # too long, or a malformed candidate of the minimiser
                return Outcome(None, True, r.digest, {"skipped-long": 1})
        for why in ("unbound", "opaque-shown", "guard-throw-in"):
            if m.probes.get(why):
                return Outcome(None, True, r.digest, {"skipped-" + why: 1})
        if m.glob.d.get(S("tick")) and m.glob.d[S("tick")] > case["ticks"]:
            return Outcome(None, True, r.digest, {"skipped-ticks": 1})
        v = None
        if r.kind != "exit":
            v = "ended: the application ended with %s (%s)" % (r.kind, r.err[-200:].decode("utf8", "replace"))
        elif r.status != 0:
            v = "status: exit status %d: %s" % (r.status, r.err[-200:].decode("utf8", "replace"))
        else:
            v = self.compare(m.out, user_lines(r), case)
        probes = dict(m.probes)
        probes["failed-calls"] = m.failed_calls
        if r.gcs:
            probes["gc-runs"] = 1
        if r.faults:
            probes["fault-runs"] = 1
        return Outcome(v, not (m.failed_calls and m.calls_after), r.digest, probes)

    def file_fails(self, r):
        """which openings of each file failed, in order"""
        out = {}
        for l in r.io:
            w = l.split(" ")
            if w[0] == "open" and w[1].startswith("/f/"):
                out.setdefault(w[1], []).append(False)
            elif w[0] in ("openerr", "noent") and w[1].startswith("/f/"):
                out.setdefault(w[1], []).append(True)
            elif w[0] == "readerr" and w[1].startswith("/f/"):
                out[w[1]][-1] = True
        return out

    def compare(self, exp, got, case):
        # what junk forms print themselves is not compared: only operation and `emit` lines are
        pat = re.compile(r"^(op\d+ |stack of)")
        labels = re.compile(r"^([a-z]+\d+|reenter|h|end) ")
        got = [norm_opaque(l) for l in got if pat.match(l) or labels.match(l)]
        exp = [norm_opaque(l) for x in exp for l in x.split("\n") if pat.match(l) or labels.match(l)]
        for i, (x, y) in enumerate(zip(exp, got)):
            if x == y:
                continue
            if x.endswith("!! <error>") and re.match(re.escape(x[:-7]) + r"[a-z]\S* m$", y):
                continue
            if x.endswith("!! *") and y.startswith(x[:-1]):
                continue
            if "<error>" in x and re.fullmatch(re.escape(x).replace("<error>", r"[a-z]\S*"), y):
                continue
            return "output: line %d should be %r, got %r" % (i + 1, x[:200], y[:200])
        if len(exp) != len(got):
            return "output: %d lines instead of %d; next %r" % (len(got), len(exp), (exp + got)[min(len(exp), len(got))][:200])
        return None

    def concretise(self, ctx, case):
        sp = self.spec(case)
        r = ctx.run(sp)
        s = core.explicit(sp, r)
        c = dict(case)
        c["knobs"] = {k: v for k, v in s["knobs"].items() if not k.startswith(("p_", "gc_rate", "gc_burst", "gc_start", "gc_every")) and k != "mode"}
        if "plan" in s:
            c["plan"] = {str(k): list(v) for k, v in s["plan"].items()}
        if "gcplan" in s:
            c["gcplan"] = s["gcplan"]
        return c

    def shrinks(self, case):
        c = case
        if c.get("gcplan"):
            g = c["gcplan"]
            yield dict(c, gcplan=[], knobs={k: v for k, v in c["knobs"].items() if not k.startswith("gc_") and k not in ("poison", "perturb")})
            for parts in (2, 4, 8, 16):
                if len(g) >= parts:
                    for i in range(parts):
                        yield dict(c, gcplan=g[:i * len(g) // parts] + g[(i + 1) * len(g) // parts:])
        if c.get("plan"):
            yield dict(c, plan={})
            for k in list(c["plan"]):
                yield dict(c, plan={x: v for x, v in c["plan"].items() if x != k})
        fs = c["forms"]
        n0 = next((i for i, o in enumerate(fs) if not o.startswith(("any\n(define", "file\n/f/pre.scm", "depth"))), 0)
        size = len(fs) // 2
        while size >= 1:
            for i in range(n0, len(fs), size):
                yield dict(c, forms=fs[:i] + fs[i + size:])
            size //= 2
        for i, o in enumerate(fs):
            op, _, arg = o.partition("\n")
            if op == "eval" and arg.startswith("(begin"):
                for y in subs(ast_of(arg)[0]):
                    if not model.wellformed(y):
                        continue
                    yield dict(c, forms=fs[:i] + [op + "\n" + src(y)] + fs[i + 1:])


PROPS = [A01()]

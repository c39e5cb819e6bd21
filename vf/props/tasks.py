"""Cooperative tasks built from continuations, under seeded schedules."""
from vf import gen, model, core
from vf.control import ControlProp, gc_knobs, spec_of, user_lines, norm_opaque, diff
from vf.engine import Outcome
from vf.model import S, src

SHARED_NAMES = {"clip", "touch", "emit", "yield!"}
GUARDS = {"genter", "gleave"}


class TaskGen(gen.Gen):
    def e_yield(self, d, sc):
        return [S("begin"), [S("yield!")], self.expr(d, sc)]

    def e_wind(self, d, sc):
        x = gen.Gen.e_wind(self, d, sc)
        if isinstance(x, list) and x[0] == "dynamic-wind" and not self.guard and self.r.random() < .6:
            x[2] = x[2][:2] + [[S("yield!")]] + x[2][2:]
        return x

    def stmt(self, d, sc):
        if self.r.random() < .3:
            return [S("yield!")]
        return gen.Gen.stmt(self, d, sc)


def rename(x, names, pre):
    if isinstance(x, list):
        if len(x) >= 2 and x[0] == "emit" and isinstance(x[1], list):
            return [x[0], [S("quote"), S(pre + ":" + x[1][1])]] + [rename(y, names, pre) for y in x[2:]]
        return [rename(y, names, pre) for y in x]
    if isinstance(x, model.Sym) and x in names:
        return S(pre + "-" + x)
    return x


SCHED = gen.sx("""
(define cur #f)
(define sched-k #f)
(define slots (make-vector 8 #f))
(define done (make-vector 8 #f))
(define bodies (make-vector 8 #f))
(define (yield!) (call/cc (lambda (k) (vector-set! slots cur k) (sched-k 0))))
(define (finish!) (vector-set! done cur #t) (sched-k 0))
(define (run-task i) (call/cc (lambda (ret) (set! sched-k ret) (set! cur i) (if (vector-ref slots i) ((vector-ref slots i) 0) ((vector-ref bodies i))))))
(define (run-schedule l) (if (null? l) 0 (begin (if (vector-ref done (car l)) 0 (run-task (car l))) (run-schedule (cdr l)))))
""")


# the same, but a task that yields goes straight to the next one instead of through the scheduler
DIRECT = gen.sx("""
(define cur #f)
(define sched-k #f)
(define plan '())
(define slots (make-vector 8 #f))
(define done (make-vector 8 #f))
(define bodies (make-vector 8 #f))
(define (switch!) (if (null? plan) (sched-k 0)
  (if (vector-ref done (car plan)) (begin (set! plan (cdr plan)) (switch!))
    (if (vector-ref slots (car plan)) (begin (set! cur (car plan)) (set! plan (cdr plan)) ((vector-ref slots cur) 0)) (sched-k 0)))))
(define (yield!) (call/cc (lambda (k) (vector-set! slots cur k) (switch!))))
(define (finish!) (vector-set! done cur #t) (sched-k 0))
(define (run-task i) (call/cc (lambda (ret) (set! sched-k ret) (set! cur i) (if (vector-ref slots i) ((vector-ref slots i) 0) ((vector-ref bodies i))))))
(define (pump) (if (null? plan) 0 (let ((i (car plan))) (set! plan (cdr plan)) (if (vector-ref done i) 0 (run-task i)) (pump))))
(define (run-schedule l) (set! plan l) (pump))
""")


class T01(ControlProp):
    id = "T01"
    cases = {"quick": 2500, "thorough": 100000}
    chunk = 6
    weights = {"yield": 14, "wind": 4, "catch": 4, "throw": 2, "callcc": 2, "reenter": 2, "map": 4, "foreach": 4, "loop": 5, "let": 6, "tstep": 3, "promise": 3, "do": 0,
               "apply": 3, "call": 4, "letrec": 3}
    rule = ("each case is 2-4 generated tasks sharing one interpreter, switching at yield points by call/cc, under a seeded schedule (a list of task numbers) and a seeded "
            "collection schedule; the whole trace is compared with the reference machine and one task's projected trace with the same task running alone. Non-trivial: at least two task switches resumed a captured continuation")
    interesting = ("cont-invoke",)

    def gen(self, rng, idx, tier):
        n = rng.randint(2, 4)
        forms = [src(f) for f in (DIRECT if rng.random() < .5 else SCHED)]
        common = rng.random() < .6
        if common:
            forms += [src(f) for f in gen.sx(gen.SHGUARDS)]
        forms += [src(f) for f in gen.sx(gen.MACROS)]
        groups = []
        for t in range(n):
            g = TaskGen(rng, self.weights, size=rng.choice([15, 30]), any=0, nprom=1, nproc=2)
            if common:
                g.shguards = .5
            fs = g.program(forms=rng.choice([1, 2, 3]), depth=rng.choice([4, 5, 6]))
            names = set()
            for f in fs:
                if isinstance(f, list) and f[0] == "define":
                    names.add(f[1][0] if isinstance(f[1], list) else f[1])
            names -= SHARED_NAMES
            if common:
                names -= GUARDS
                fs = [f for f in fs if f[0] != "define" or isinstance(f[1], list) or f[1] not in GUARDS]
            fs = [f for f in fs if f[0] != "define-macro"]
            pre = "t%d" % t
            defs = [f for f in fs if f[0] == "define"]
            body = [f for f in fs if f[0] != "define"]
            out = []
            for f in defs:
                if f[1] == "tick":
                    f = [S("define"), S("tick"), t * 100]
                out.append(src(rename(f, names, pre)))
            b = []
            for f in body:
                b.append(rename(f, names, pre))
                if rng.random() < .6:
                    b.append([S("yield!")])
            out.append(src([S("vector-set!"), S("bodies"), t, [S("lambda"), [], [S("catch"), True, [S("lambda"), []] + b, [S("lambda"), [S("key"), S("."), S("rest")], [S("emit"), [S("quote"), S(pre + ":uncaught")], 0]]],
                                                               [S("finish!")]]]))
            groups.append(out)
        style = rng.random()
        if style < .3:
            sched = [i % n for i in range(rng.randint(4, 30))]
        elif style < .6:
            sched = [rng.randrange(n) for _ in range(rng.randint(5, 40))]
        else:  # bursts: one task runs far ahead while the others are parked
            sched = []
            for _ in range(rng.randint(2, 6)):
                sched += [rng.randrange(n)] * rng.randint(1, 8)
        drain = [i for _ in range(12) for i in range(n)]
        for g in groups:
            forms += g
        half = rng.randint(0, len(sched))
        for part in (sched[:half], sched[half:], drain):
            if part:
                forms.append("(emit (quote sched) %s)" % src([S("run-schedule"), [S("quote"), part]]))
        forms.append("(emit 'end done)")
        knobs = gc_knobs(rng)
        if rng.random() < .35:
            knobs["io_mode"] = 1
            knobs.setdefault("seed", rng.getrandbits(31))
            knobs["p_open_EMFILE"] = rng.choice([100, 300, 700])
        return {"forms": forms, "knobs": knobs, "ticks": 400, "alone": rng.randrange(n)}

    def judge(self, case, r, m):
        for t in range(8):
            e = m.glob.d.get(S("t%d-tick" % t))
            if e is not None and e > t * 100 + 99:
                return Outcome(None, True, r.digest, {"skipped-ticks": 1})
        return ControlProp.judge(self, case, r, m)

    def evaluate(self, ctx, case):
        o = ControlProp.evaluate(self, ctx, case)
        if o.viol or o.trivial or case.get("alone") is None:
            return o
        # isolation, judged between two runs of the real code
        t = case["alone"]
        if any("(define plan" in f for f in case["forms"]):
            # going straight on with itself a task leaves no extent, going to another one it does
            return o
        full = ctx.run(spec_of(case))
        if full.faults:
            return o
        import re
        forms = []
        for f in case["forms"]:
            mm = re.match(r"\(emit (?:'sched|\(quote sched\)) \(run-schedule '\(([^)]*)\)\)\)", f)
            if mm:
                l = [x for x in mm.group(1).split() if x == str(t)]
                if l:
                    forms.append("(emit (quote sched) (run-schedule (quote (%s))))" % " ".join(l))
            else:
                forms.append(f)
        alone = ctx.run(spec_of(dict(case, forms=forms, knobs={}, gcplan=[], plan={})))
        pick = lambda r: [l for l in user_lines(r) if l.startswith("t%d:" % t)]
        a, b = pick(alone), pick(full)
        if a != b:
            o.viol = "isolation: task %d alone and interleaved differ: %s" % (t, diff("\n".join(a), "\n".join(b)))
        o.probes["isolation-compared"] = 1
        return o


PROPS = [T01()]

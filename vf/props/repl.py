"""The interactive prompt: sessions typed through a simulated standard input that arrives in pieces and fails."""
import random, re
from vf import core, gen, model
from vf.control import ControlProp, gc_knobs, norm_opaque, subs, FUEL, BUDGET
from vf.engine import Outcome
from vf.model import S, Str, src, ERR
from vf.props.api import PRE, HNUM, RESET

# a line of its own that is not well-formed
SYNTAX = [")", "(1 . )", "(list 1 . )", ") (emit 'lost 1)", "(emit 'lost 2) )", "(1 . 2 3)"]
# certainly an error when evaluated
WRONG = ["(car 5)", "(no-such-procedure 1)", "(error \"boom\")", "(throw 'session-key 1)", "(vector-ref (vector 1) 5)", "(if)", "(let ((a)) a)", "((lambda (a) a))",
         "(primitive-load \"/none.scm\")", "(open-input-file \"/none\")", "(string-append 1)", "(dynamic-wind car)", "(begin (emit 'half 1) (car 5))", "(begin (display \"half\") (car 5))",
         "(dynamic-wind (lambda () (emit 'i 1)) (lambda () (throw 'session-key 2)) (lambda () (emit 'o 1)))", "(list \"(\" (car \"a ; b\"))"]
WRONG += gen.MISUSE
# texts that try the way the input is cut up; their value as printed
CUTS = [("(list \"a)b\" 1)", "(\"a)b\" 1)"), ("(list \"(\" 2)", "(\"(\" 2)"), ("(list \"x;y\" 3)", "(\"x;y\" 3)"), ("(list \"\\\\\" 4)", "(\"\\\\\" 4)"), ("(list \"\\\"\" 5)", None),
        ("(char->integer #\\))", "41"), ("(char->integer #\\()", "40"), ("(char->integer #\\;)", "59"), ("(char->integer #\\\")", "34"), ("(list 'a '(b) '())", "(a (b) ())"),
        ("(length '(1 (2 ; (\n 3) 4))", "3"), ("(quote\n(1 2))", "(1 2)"), ("(list ; \"\n 1)", "(1)"), ("(+\n\n1\n2)", "3"), ("(string-length \"ab\ncd\")", "5"),
        ("(list '\n(1 2))", "((1 2))"), ("(list `(1 ,\n(+ 1 1)))", "((1 2))"),
        ("98765", "98765"), ("\"s;(s\"", None), ("\"\"", None), ("\"a 'b\"", None), ("#\\(", None), ("#\\;", None), ("'quoted-name", "quoted-name"), ("'(1 \"(\")", "(1 \"(\")"), ("`(1 ,g-five)", "(1 5)"), ("'\"q(\"", None),
        ("`(1 ,@(list 2 3))", "(1 2 3)"), ("g-five", "5"), ("(list 'a ;)\n'b)", "(a b)"), ("(list #\\a #\\( 1)", None), ("'()", "()"), ("(char->integer #\\')", "39")]
CUTV = dict(CUTS)
# bare atoms are echoed on a line of their own
ECHO = {t[2:] if t.startswith("#\\") else t.strip('"') for t in CUTV if not t.startswith(("(", "'", "`"))}
CUTV["(char->integer #\\))"] = "41"


def spread(text, r):
    """the same expression with its blanks and line breaks elsewhere"""
    out, i, n, instr = [], 0, len(text), False
    while i < n:
        c = text[i]
        if c == "\\":
            out.append(text[i:i + 2])
            i += 2
            continue
        if c == '"':
            instr = not instr
        if c == " " and not instr:
            x = r.random()
            if x < .06:
                out.append(r.choice(["\n", "\n\n", "  \n  ", " ; comment\n", " ; ( \" )\n", "\n; '\n"]))
            elif x < .064:
                out.append(" " * r.choice([500, 4100, 9000]))
            else:
                out.append(r.choice([" ", " ", "  ", "\t"]))
        else:
            out.append(c)
        i += 1
    return "".join(out)


class R01(ControlProp):
    id = "R01"
    chunk = 10
    cases = {"quick": 9000, "thorough": 400000}
    weights = {"throw": 5, "err": 4, "wind": 5, "catch": 4, "do": 0, "values": 0}
    rule = ("each case is an interactive session: 5-40 expressions, many of them failing or malformed, spread over lines or sharing them, with comments and strings that hold parentheses, typed "
            "through a standard input delivered in seeded pieces, interrupted and failing; what each expression prints, its value or error, and their order are compared with the reference "
            "machine. Non-trivial: an expression failed and another was evaluated afterwards; distinct by event-log digest")

    def gen(self, rng, idx, tier):
        g = gen.Gen(rng, self.weights, size=rng.choice([15, 30]), any=.3, nprom=2)
        g.usemacros = g.usehtab = True
        prog = g.program(forms=1, depth=3)
        forms = PRE + [HNUM, "(define g-five 5)"] + [src(f) for f in prog if isinstance(f, list) and f[0] in ("define", "define-macro")]
        for _ in range(rng.choice([4, 8, 15, 30])):
            x = rng.random()
            if x < .5:
                g.size = rng.choice([4, 10, 25])
                d = rng.choice([2, 4, 5])
                forms.append("(begin %s %s)" % (RESET, src(g.anyx(d, []) if rng.random() < .35 else g.expr(d, []))))
            elif x < .65:
                forms.append(rng.choice(WRONG))
            elif x < .75:
                forms.append(rng.choice(SYNTAX))
            elif x < .93:
                forms.append(rng.choice(CUTS)[0])
            else:
                forms.append("(emit 'now (list g0 g1 g2))")
        forms.append("(emit 'end (list g0 g1 g2 fuel vec))")
        knobs = gc_knobs(rng)
        lay = {"seed": rng.getrandbits(31), "same": rng.choice([0, .2, .6, .95]), "spread": rng.choice([0, .3, 1]), "end": rng.choice(["\n", "\n", "", "  ", "\n(emit 'lost 3", "\n(list \"abc)\n"])}
        if rng.random() < .5:
            knobs["read_cap"] = rng.choice([1, 2, 3, 7, 17, 64, 1000])
        if rng.random() < .5:
            knobs["io_mode"] = 1
            knobs["stdin_faulty"] = 1
            knobs.setdefault("seed", rng.getrandbits(31))
            knobs["p_read_EINTR"] = rng.choice([20, 100, 300])
            if rng.random() < .5:
                knobs["p_read_SHORT"] = rng.choice([100, 500])
            if rng.random() < .2:
                knobs["p_open_EMFILE"] = 200
            if rng.random() < .15:
                knobs["p_read_EIO"] = rng.choice([5, 30])
                # the piece of a line before an error counts as a line: only pieces of lists are sure to be incomplete
                lay["same"] = lay["spread"] = 0
                forms = [t for t in forms if t not in SYNTAX]
        return {"forms": forms, "lay": lay, "knobs": knobs, "ticks": 120}

    def stdin(self, case):
        lay = case["lay"]
        out = ""
        self.inside = 0
        for i, t in enumerate(case["forms"]):
            r = random.Random("%d/%d/%s" % (lay["seed"], i, t))
            if t in SYNTAX:
                out += ("" if out.endswith("\n") or not out else "\n") + t + "\n"
                continue
            if t not in CUTV and r.random() < lay["spread"]:
                t = spread(t, r)
            self.inside += t.count("\n")
            out += t + (" " if r.random() < lay["same"] else r.choice(["\n", "\n", "\n\n", "  \n", "\r\n"]) if lay["spread"] else "\n")
            if lay["spread"] and r.random() < .05:
                out += ("" if out.endswith("\n") else "\n") + r.choice(["; a line ( \" of comment\n", ";\n", "   \n"])
        self.inside += lay["end"].count("(")
        return out.rstrip() + lay["end"]

    def spec(self, case):
        spec = {"files": {}, "args": ["pscm"], "knobs": dict({"cpu_s": 20, "budget": BUDGET}, **case.get("knobs", {})), "stdin": self.stdin(case),
                "faulty": {"/t/%d" % i: "" for i in range(1, case["ticks"] + 1)}}
        for k in ("plan", "gcplan"):
            if k in case:
                spec[k] = case[k]
        return spec

    def model_run(self, case, ticks):
        m = model.Machine(fuel=FUEL)
        m.failing = ticks
        m.failed = m.after = 0

        def bad():
            m.out.append("!ERROR")
            m.failed += 1
        for t in case["forms"]:
            if t in SYNTAX:
                bad()
            elif t in CUTV:
                m.out.append(" --> " + (CUTV[t] or "*"))
            elif t in WRONG:
                if "'half" in t:
                    m.out.append("half 1")
                elif "half" in t:
                    m.out.append("half")
                elif "'i " in t:
                    m.out += ["i 1", "o 1"]
                bad()
            elif t.startswith("(define"):
                if not t.startswith(("(define (emit", "(define (touch", "(define (mvl")):
                    for f in model.read_all(t):
                        m.run_form(f)
                m.out.append(" --> *")
            else:
                m.winders = None
                x = m.run_form(model.read_all(t)[0])
                if isinstance(x[1], tuple) and x[1][0] == "uncaught":
                    bad()
                else:
                    m.after += m.failed > 0
                    v = "none" if x[1] is model.UNSPEC else model.show(x[1])
                    m.out.append(" --> " + ("*" if v.startswith(('"', "#\\")) else v))
        return m

    def transcript(self, r):
        """what the session printed, without prompts and echoes, each reported error at its place"""
        text, err = "", ""
        for t, p in r.recs:
            if t == "O":
                text += p.decode("latin-1")
            elif t == "E":
                err += p.decode("latin-1")
                while "\n" in err:
                    l, err = err.split("\n", 1)
                    if l.startswith("ERROR: ") and not l.startswith("ERROR: cannot open file"):
                        text += "\n!ERROR\n"
        out = []
        for l in text.split("\n"):
            l = re.sub(r"^(pscm> |  \.\.\.> )+", "", l)
            if l and not l.startswith(("(", "[symtbl]")) and l not in ECHO:
                out.append(norm_opaque(l))
        return out

    def evaluate(self, ctx, case):
        try:
            m = self.model_run(case, set())
        except Exception:  # too long, or a malformed candidate of the minimiser
            return Outcome(None, True, "long", {"skipped-long": 1})
        r = ctx.run(self.spec(case))
        if r.faults:
            try:
                m = self.model_run(case, self.failing(r))
            except Exception:  # too long, or a malformed candidate of the minimiser
                return Outcome(None, True, r.digest, {"skipped-long": 1})
        for why in ("unbound", "opaque-shown", "guard-throw-in"):
            if m.probes.get(why):
                return Outcome(None, True, r.digest, {"skipped-" + why: 1})
        if m.glob.d.get(S("tick")) and m.glob.d[S("tick")] > case["ticks"]:
            return Outcome(None, True, r.digest, {"skipped-ticks": 1})
        if r.kind != "exit":
            v = "ended: the session ended with %s (%s)" % (r.kind, r.err[-200:].decode("utf8", "replace"))
        elif r.status != 0:
            v = "status: exit status %d" % r.status
        else:
            v = self.compare([norm_opaque(l) for x in m.out for l in x.split("\n")], self.transcript(r), any(" read EIO " in f for f in r.faults))
            if not v and not any(" read EIO " in f for f in r.faults):
                n = sum(x.count(">") for x in re.findall(r"^(?:pscm> )*((?:  \.\.\.> )+)", r.out.decode("latin-1"), re.M))
                if n > self.inside:
                    v = "waited: asked for more input %d times although only %d lines ended inside an expression" % (n, self.inside)
        probes = dict(m.probes)
        probes["failed"] = m.failed
        if r.gcs:
            probes["gc-runs"] = 1
        if r.faults:
            probes["fault-runs"] = 1
        return Outcome(v, not (m.failed and m.after), r.digest, probes)

    def compare(self, exp, got, cut):
        for i, (x, y) in enumerate(zip(exp, got)):
            if x == y or (x == " --> *" and y.startswith(" --> ")):
                continue
            if cut and i == len(got) - 1 and y == "read failed":
                return None
            return "session: line %d of the transcript should be %r, got %r" % (i + 1, x[:200], y[:200])
        if cut and len(got) <= len(exp) + 1 and got[len(exp):] in ([], ["read failed"]):
            return None
        if len(exp) != len(got):
            return "session: %d lines of output instead of %d; next %r" % (len(got), len(exp), (exp + got)[min(len(exp), len(got))][:200])
        return None

    def concretise(self, ctx, case):
        sp = self.spec(case)
        r = ctx.run(sp)
        s = core.explicit(sp, r)
        c = dict(case)
        c["knobs"] = {k: v for k, v in s["knobs"].items() if not k.startswith(("p_", "gc_rate", "gc_burst", "gc_start", "gc_every"))}
        if "plan" in s:
            c["plan"] = {str(k): list(v) for k, v in s["plan"].items()}
        if "gcplan" in s:
            c["gcplan"] = s["gcplan"]
        return c

    def shrinks(self, case):
        c = case
        if c.get("gcplan"):
            g = c["gcplan"]
            yield dict(c, gcplan=[], knobs={k: v for k, v in c["knobs"].items() if not k.startswith("gc_") and k not in ("poison", "perturb")})
            for parts in (2, 4, 8, 16):
                if len(g) >= parts:
                    for i in range(parts):
                        yield dict(c, gcplan=g[:i * len(g) // parts] + g[(i + 1) * len(g) // parts:])
        if c.get("plan"):
            yield dict(c, plan={})
            for k in list(c["plan"]):
                yield dict(c, plan={x: v for x, v in c["plan"].items() if x != k})
        if "read_cap" in c["knobs"]:
            yield dict(c, knobs={k: v for k, v in c["knobs"].items() if k != "read_cap"})
        for k, v in (("same", 0), ("spread", 0), ("end", "\n")):
            if c["lay"][k] != v:
                yield dict(c, lay=dict(c["lay"], **{k: v}))
        fs = c["forms"]
        n0 = next((i for i, t in enumerate(fs) if not t.startswith("(define")), 0)
        size = len(fs) // 2
        while size >= 1:
            for i in range(n0, len(fs), size):
                yield dict(c, forms=fs[:i] + fs[i + size:])
            size //= 2
        for i, t in enumerate(fs):
            if t.startswith("(begin " + RESET):
                for y in subs(model.read_all(t)[0]):
                    if isinstance(y, list) and model.wellformed(y):
                        yield dict(c, forms=fs[:i] + [src(y)] + fs[i + 1:])


PROPS = [R01()]

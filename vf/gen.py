"""Workload generators: random Scheme programs over the control, storage and data surface."""
from vf.model import S, Str, Char

TAGS = ["t", "ta", "tab", "tb"]

PRELUDE = r"""
(define (emit tag x) (write tag) (write-char #\space) (write x) (newline))
(define (touch n) (close-input-port (open-input-file (string-append "/t/" (number->string n)))) n)
(define (mvl x) x)
"""

# operations applied to arguments they do not take: each is an error
MISUSE = [
    "(dynamic-wind 1 2 3)", "(dynamic-wind (lambda () 1) (lambda () 2))", "(for-each + '(1 2) '(1))", "(let ((x 1)))", "(do ((i 0)) 1)", "(load 5)",
    "(call-with-values 1 2)", "(map car '(1 2) '(1))", "(map car 5)", "(apply + 1 2)", "(apply + 5)", "(force)", "(call/cc 5)", "(call/cc)", "(case)", "(case 1 2)",
    "(vector-ref (vector 1 2) -1)", "(hash-ref 5 5)", "(hash-fold 1 2 3)", "(string-append \"a\" 5)", "(substring \"abc\" 2 9)", "(string-ref \"abc\" 3)",
    "(list-ref '(1 2) 5)", "(list-tail '(1 2) 5)", "(symbol->string \"a\")", "(integer->char -1)", "(char->integer 5)", "(open-input-file 5)", "(read-char 5)",
    "(quotient 1 0)", "(remainder 1 0)", "(length 5)", "(reverse 5)", "(make-vector -1 0)", "(make-string -1 #\\a)", "(make-hash-table -5)", "(eval)", "(quasiquote)",
    "(cond (1 =>))", "(cond (1 => 5))", "(define-macro)", "(let loop)", "(letrec)", "(set!)", "(lambda)", "(if)", "(delay)", "(expt 2 \"a\")", "(number->string \"a\")",
    "(string->number 5)", "(list->string '(1 2))", "(list->vector 5)", "(vector->list 5)", "(vector-set! 5 0 1)", "(set-car! 5 1)", "(set-cdr! 5 1)", "(cadr '(1))",
    "(assq 1 5)", "(memq 1 5)", "(throw)", "(throw 5)", "(call-with-output-string 5)", "(make-soft-port 5 5)", "(variable-ref 5)", "(module-ref 5 5)",
    "(define-module 5)", "(string->symbol 5)",
]

# prelude shared by pscm and the model (as s-expressions)
def q(x):
    return [S("quote"), x]


def sx(text):
    """tiny reader for templates"""
    toks = text.replace("(", " ( ").replace(")", " ) ").replace("'", " ' ").split()

    def rd(i):
        t = toks[i]
        if t == "(":
            r = []
            i += 1
            while toks[i] != ")":
                x, i = rd(i)
                r.append(x)
            return r, i + 1
        if t == "'":
            x, i = rd(i + 1)
            return [S("quote"), x], i
        if t == "#t":
            return True, i + 1
        if t == "#f":
            return False, i + 1
        try:
            return int(t), i + 1
        except ValueError:
            return S(t), i + 1

    r = []
    i = 0
    while i < len(toks):
        x, i = rd(i)
        r.append(x)
    return r


SHARED = sx("""
(define fuel 0)
(define fuel-max 6)
(define tick 0)
(define g0 1) (define g1 2) (define g2 3)
(define k0 #f) (define k1 #f) (define k2 #f)
(define vec (make-vector 4 0))
(define (reenter k v) (if (procedure? k) (if (< fuel fuel-max) (begin (set! fuel (+ fuel 1)) (emit 'reenter v) (k v)) v) v))
(define (tstep v) (set! tick (+ tick 1)) (touch tick) v)
(define (clip x) (remainder x 1000))
(define held '())
(define (hold x) (begin (set! held (cons x held)) x))
(define wi 0) (define wo 0)
(define (deep n th) (if (= n 0) (th) (let ((v (deep (- n 1) th))) v)))
(define (winds n th) (if (= n 0) (th) (dynamic-wind (lambda () (set! wi (+ wi 1))) (lambda () (winds (- n 1) th)) (lambda () (set! wo (+ wo 1))))))
(define (catches n th) (if (= n 0) (th) (catch 'none (lambda () (catches (- n 1) th)) (lambda a 0))))
""")

MTAB = """
(define mtab (resolve-module '(mtab)))
"""
MTAB_FILES = {"mtab.scm": "(define-module (mtab) #:export (mv0))\n(define mv0 7)\n(define mv1 7)\n(define mv2 7)\n"}

DEFAULT = {
    "lit": 6, "var": 8, "add": 6, "let": 4, "if": 4, "emit": 5, "callcc": 5, "reenter": 4, "wind": 4, "catch": 4, "throw": 2,
    "set": 3, "map": 3, "foreach": 2, "apply": 2, "call": 4, "promise": 2, "force": 2, "loop": 2, "do": 2, "vec": 2, "tstep": 2,
    "err": 1, "lambda": 3, "cond": 2, "andor": 2, "letstar": 1, "letrec": 1, "values": 0,
    "list": 2, "str": 1, "garbage": 2, "guardwork": 1,
    "case": 2, "quasi": 2, "macro": 2, "eval": 2, "hfold": 1, "mmap": 1, "deep": 1, "arrow": 1, "load": 0,
}


HTAB = """
(define htab (let ((h (make-hash-table %d))) (hash-set! h 'a 7) (hash-set! h 5 7) (hash-set! h 3 7) h))
"""

MACROS = """
(define-macro (m0 a b) (list 'clip (list '+ a b)))
(define-macro (m1 a . rest) (cons 'begin (cons a rest)))
(define-macro (m2 v a) (list 'let (list (list v a)) (list 'clip (list '+ v v))))
(define-macro (m3 a) (list 'clip (list '+ a (let ((k #f) (n 0)) (let ((v (call/cc (lambda (c) (set! k c) 1)))) (set! n (+ n 1)) (if (< n 3) (k (+ v 1)) v))))))
"""
# When, and how often, a macro call is expanded is left open: the transformers have no outside effects.

SHGUARDS = """
(define genter (lambda () (emit 'gin 1)))
(define gleave (lambda () (emit 'gout 1)))
"""


class Gen:
    def __init__(self, rng, weights=None, size=40, nprom=2, nproc=3, any=.35):
        self.r = rng
        w = dict(DEFAULT)
        w.update(weights or {})
        self.w = w
        self.size = size
        self.n = 0
        self.nprom = nprom
        self.any = any
        self.nproc = nproc
        self.guard = 0
        self.handler = 0
        self.inproc = False
        self.fnarity = {}
        self.loads = {}
        self.usemacros = self.usehtab = self.usemtab = False
        self.mtab = False  # whether the program may look at a module's table
        self.nloads = 0
        self.holds = False
        self.shguards = rng.choice([0, 0, .5])

    def fresh(self, p):
        self.n += 1
        return S("%s%d" % (p, self.n))

    def tag(self):
        return q(S(self.r.choice(TAGS)))

    def em(self, label, x):
        self.n += 1
        return [S("emit"), q(S("%s%d" % (label, self.n))), x]

    def data(self, depth=2):
        """a literal of any type"""
        r = self.r
        k = r.choice(["int", "sym", "str", "char", "bool", "nil", "list", "list", "form"]) if depth else r.choice(["int", "sym", "str"])
        if k == "int":
            return r.randint(-99, 99)
        if k == "sym":
            return q(S(r.choice(["g0", "undefined-name", "car", "if", "x", "quux"])))
        if k == "str":
            return Str(r.choice(["", "hi", "a b", "call/cc"]))
        if k == "char":
            return Char(r.choice("azQ9"))
        if k == "bool":
            return r.random() < .5
        if k == "nil":
            return q([])
        if k == "form":  # a list that would do something if it were evaluated
            return q(r.choice([[S("g0")], [S("+"), 1, 2], [S("throw"), S("ta")], [S("undefined-proc"), 1], [S("lambda"), [S("x")], S("x")], [1, 2, 3]]))
        return [S("list")] + [self.data(depth - 1) for _ in range(r.randint(1, 3))]

    def anyx(self, d, sc):
        """an expression whose value may be of any printable type"""
        r = self.r
        self.size -= 1
        if d <= 0 or self.size <= 0:
            return self.data()
        k = r.choice(["data", "int", "callcc", "wind", "catch", "throwc", "force", "map", "if", "let", "values", "apply", "fn", "list", "andor", "cond", "begin", "reent", "quasi", "case", "eval", "hold", "hold", "mmap", "applyk"] + ["force"] * (3 if self.w["promise"] > 5 else 0))
        d -= 1
        if k == "data":
            return self.data()
        if k == "int":
            return self.expr(d, sc)
        if k == "callcc":
            kk = self.fresh("k")
            b = [[S("set!"), S("k%d" % r.randint(0, 2)), kk]] if r.random() < .5 else []
            x = self.anyx(d, sc)
            return [S("call/cc"), [S("lambda"), [kk]] + b + [[kk, x] if r.random() < .5 else x]]
        if k == "wind":
            n = self.n = self.n + 1
            return [S("dynamic-wind"), [S("lambda"), [], [S("emit"), q(S("in%d" % n)), S("g0")]], [S("lambda"), [], self.anyx(d, sc)],
                    [S("lambda"), [], [S("emit"), q(S("out%d" % n)), self.data() if r.random() < .3 else S("g1")]]]
        if k == "catch":
            key, args = self.fresh("key"), self.fresh("args")
            return [S("catch"), self.tag(), [S("lambda"), [], self.anyx(d, sc)], [S("lambda"), [key, S("."), args], [S("list"), key, args, self.anyx(d, sc)]]]
        if k == "throwc":
            t = self.tag()
            a = self.fresh("args")
            alltags = r.random() < .3
            return [S("catch"), True if alltags else t, [S("lambda"), [], [S("throw"), t] + [self.anyx(d, sc) for _ in range(r.randint(0, 2))]],
                    [S("lambda"), a, q(S("caught")) if alltags else a]]
        if k == "force":
            p = self.fresh("p")
            return [S("let"), [[p, [S("delay"), self.anyx(d, sc)]]], [S("list"), [S("force"), p], [S("force"), p]]]
        if k == "map":
            x = self.fresh("x")
            return [S("map"), [S("lambda"), [x], [S("list"), x, self.anyx(d, sc)]], [S("list"), self.data(), self.data()]]
        if k == "if":
            return [S("if"), self.data(), self.anyx(d, sc), self.anyx(d, sc)]
        if k == "let":
            v = self.fresh("w")
            return [S("let"), [[v, self.anyx(d, sc)]], [S("list"), v, v]]
        if k == "values":
            a, b = self.fresh("a"), self.fresh("b")
            return [S("call-with-values"), [S("lambda"), [], [S("values"), self.anyx(d, sc), self.data()]], [S("lambda"), [a, b], [S("list"), b, a]]]
        if k == "apply":
            u = self.fresh("u")
            return [S("let"), [[u, [S("list"), self.anyx(d, sc), self.data()]]], [S("apply"), S("list"), u]]
        if k == "fn":
            v = self.fresh("a")
            return [[S("lambda"), [v], [S("cons"), v, v]], self.anyx(d, sc)]
        if k == "list":
            return [S("list"), self.anyx(d, sc), self.anyx(d, sc)]
        if k == "andor":
            return [S(r.choice(["and", "or"])), self.anyx(d, sc), self.anyx(d, sc)]
        if k == "cond":
            return [S("cond"), [self.data(), self.anyx(d, sc)], [S("else"), self.anyx(d, sc)]]
        if k == "begin":
            return [S("begin"), self.expr(d, sc), self.anyx(d, sc)]
        if k == "quasi":
            return [S("quasiquote"), [S("x"), Str("s"), self.template(lambda: self.anyx(d, sc), r.choice([1, 2])), [[S("unquote"), self.anyx(d, sc)], S("y")]]]
        if k == "case":
            return [S("case"), self.data(), [[S("g0"), S("x"), 7], self.anyx(d, sc)], [[Char("a"), True, -3], self.data()], [S("else"), self.anyx(d, sc)]]
        if k == "hold":
            self.holds = True
            return [S("hold"), self.anyx(d, sc)]
        if k == "mmap":
            if not self.mtab:
                return self.anyx(d, sc)
            self.usemtab = True
            k, v = self.fresh("k"), self.fresh("v")
            return [S("module-map"), [S("lambda"), [k, v], self.anyx(d, sc + [v])], S("mtab")]
        if k == "applyk":
            k, u, l = self.fresh("k"), self.fresh("u"), self.fresh("l")
            return [S("let"), [[u, self.data()], [l, [S("list"), self.data()]]], [S("mvl"), [S("call/cc"), [S("lambda"), [k], [S("apply"), k, u, self.anyx(d, sc), l]]]]]
        if k == "eval":
            return [S("eval"), [S("list"), q(S("list")), q(self.anyx(d, [])), [S("list"), q(S("quote")), self.anyx(d, sc)]]]
        return [S("reenter"), S("k%d" % r.randint(0, 2)), self.anyx(d, sc)]

    def expr(self, d, sc):
        """an integer-valued expression; sc = local integer variables"""
        r = self.r
        self.size -= 1
        if d <= 0 or self.size <= 0:
            return r.randint(0, 9) if not sc or r.random() < .5 else r.choice(sc + [S("g0"), S("g1")])
        kinds = [k for k in self.w if self.w[k] > 0]
        k = r.choices(kinds, [self.w[k] for k in kinds])[0]
        return getattr(self, "e_" + k)(d - 1, sc)

    def e_case(self, d, sc):
        r = self.r
        cl = [[r.sample(range(-2, 12), r.randint(1, 4))] + self.body(d, sc) for _ in range(r.choice([1, 2]))]
        return [S("case"), [S("remainder"), self.expr(d, sc), 10]] + cl + [[S("else")] + self.body(d, sc)]

    def template(self, item, n):
        """a quasiquote template of n holes"""
        t = []
        for _ in range(n):
            x = self.r.random()
            if x < .3:
                t.append([S("unquote-splicing"), [S("list")] + [item() for _ in range(self.r.choice([0, 1, 2]))]])
            elif x < .5:
                t.append([S("unquote"), item()])
                t.append(self.r.randint(0, 9))
            else:
                t.append([S("unquote"), item()])
        return t

    def e_quasi(self, d, sc):
        return [S("apply"), S("+"), [S("quasiquote"), [1] + self.template(lambda: self.expr(d, sc), self.r.choice([1, 2, 2, 3]))]]

    def e_macro(self, d, sc):
        self.usemacros = True
        k = self.r.randint(0, 3)
        if k == 0:
            return [S("m0"), self.expr(d, sc), self.expr(d, sc)]
        if k == 1:
            return [S("m1")] + self.body(d, sc)
        if k == 2:
            return [S("m2"), self.fresh("v"), self.expr(d, sc)]
        return [S("m3"), self.expr(d, sc)]

    def e_eval(self, d, sc):
        x = self.r.random()
        if x < .4:
            return [S("eval"), q(self.expr(d, []))]
        if x < .7:
            return [S("eval"), [S("list"), q(S("clip")), [S("list"), q(S("+")), [S("list"), q(S("quote")), self.expr(d, sc)], q(self.expr(d, []))]]]
        return [S("eval"), [S("quasiquote"), [S("begin"), self.em("q", S("g0")), [S("clip"), [S("+"), S("g1"), [S("quote"), [S("unquote"), self.expr(d, sc)]]]]]]]

    def e_load(self, d, sc):
        if not self.nloads:
            return self.e_eval(d, sc)
        return [S("load"), Str("/l/%d.scm" % self.r.randrange(self.nloads))]

    def e_hfold(self, d, sc):
        # every entry has the same value and the keys are not looked at: any order will do
        self.usehtab = True
        k, v, a = self.fresh("k"), self.fresh("v"), self.fresh("acc")
        return [S("hash-fold"), [S("lambda"), [k, v, a]] + self.body(d, sc + [v, a])[:-1] + [[S("clip"), [S("+"), v, a, self.expr(d, sc + [v, a])]]], self.expr(d, sc), S("htab")]

    def e_mmap(self, d, sc):
        if not self.mtab:
            return self.e_hfold(d, sc)
        self.usemtab = True
        k, v = self.fresh("k"), self.fresh("v")
        return [S("apply"), S("+"), [S("module-map"), [S("lambda"), [k, v]] + self.body(d, sc + [v]), S("mtab")]]

    def e_deep(self, d, sc):
        """far down: under many calls, extents or catches"""
        r = self.r
        f = r.choice(["deep", "deep", "winds", "catches"])
        if self.guard or self.handler:
            f = "deep"
        return [S(f), r.choice([2, 10, 20, 40, 70, 140] + [300] * (f == "deep")), [S("lambda"), []] + self.body(d, sc)]

    def e_arrow(self, d, sc):
        x = self.fresh("x")
        return [S("cond"), [False, 0], [self.expr(d, sc), S("=>"), [S("lambda"), [x]] + self.body(d, sc + [x])]]

    def e_lit(self, d, sc):
        return self.r.randint(-5, 20)

    def e_var(self, d, sc):
        return self.r.choice(sc + [S("g0"), S("g1"), S("g2")])

    def e_add(self, d, sc):
        return [S("clip"), [S(self.r.choice(["+", "+", "-"])), self.expr(d, sc)] + [self.expr(d, sc) for _ in range(self.r.choice([1, 1, 2]))]]

    def e_list(self, d, sc):
        n = self.r.randint(1, 3)
        return [S("apply"), S("+"), [S("list")] + [self.expr(d, sc) for _ in range(n)]]

    def e_let(self, d, sc):
        vs = [self.fresh("v") for _ in range(self.r.choice([1, 1, 2, 3]))]
        return [S("let"), [[v, self.expr(d, sc)] for v in vs]] + self.body(d, sc + vs)

    def e_letstar(self, d, sc):
        b, s = [], list(sc)
        for _ in range(self.r.choice([1, 2])):
            v = self.fresh("v")
            b.append([v, self.expr(d, s)])
            s.append(v)
        return [S("let*"), b] + self.body(d, s)

    def e_letrec(self, d, sc):
        f, x = self.fresh("f"), self.fresh("x")
        return [S("letrec"), [[f, [S("lambda"), [x], [S("if"), [S("<"), x, 1], self.expr(d, sc + [x]), [S("+"), 1, [f, [S("-"), x, 1]]]]]]], [f, self.r.randint(0, 3)]]

    def body(self, d, sc):
        return [self.stmt(d, sc) for _ in range(self.r.choice([0, 0, 1, 2]))] + [self.expr(d, sc)]

    def stmt(self, d, sc):
        r = self.r.random()
        if r < .35:
            return self.em("s", self.expr(d, sc))
        if r < .6:
            return self.assign(d, sc)
        return self.expr(d, sc)

    def assign(self, d, sc):
        r = self.r.random()
        if r < .2:
            return [S("vector-set!"), S("vec"), self.r.randint(0, 3), self.expr(d, sc)]
        v = self.r.choice(sc + [S("g0"), S("g1"), S("g2")])
        return [S("set!"), v, [S("clip"), [S("+"), v, self.expr(d, sc)]] if self.r.random() < .5 else self.expr(d, sc)]

    def e_set(self, d, sc):
        return [S("begin"), self.assign(d, sc), self.expr(d, sc)]

    def e_if(self, d, sc):
        return [S("if"), [S("<"), self.expr(d, sc), self.expr(d, sc)], self.expr(d, sc), self.expr(d, sc)]

    def e_cond(self, d, sc):
        return [S("cond")] + [[[S("="), self.expr(d, sc), self.expr(d, sc)]] + self.body(d, sc) for _ in range(self.r.choice([1, 2]))] + [[S("else")] + self.body(d, sc)]

    def e_andor(self, d, sc):
        return [S(self.r.choice(["and", "or"])), self.expr(d, sc), self.expr(d, sc)]

    def e_emit(self, d, sc):
        return [S("begin"), self.em("e", self.expr(d, sc)), self.expr(d, sc)]

    def e_callcc(self, d, sc):
        k = self.fresh("k")
        b = []
        x = self.r.random()
        if x < .6:
            b.append([S("set!"), S("k%d" % self.r.randint(0, 2)), k])
        if self.r.random() < .4:
            b.append([S("if"), [S("<"), self.expr(d, sc), self.expr(d, sc)], [k, self.expr(d, sc)], 0])
        b.append(self.expr(d, sc))
        return [S("call/cc"), [S("lambda"), [k]] + b]

    def e_reenter(self, d, sc):
        return [S("reenter"), S("k%d" % self.r.randint(0, 2)), self.expr(d, sc)]

    def e_wind(self, d, sc):
        if self.guard:
            return self.e_lit(d, sc)
        self.n += 1
        n = self.n
        gb, ga, ge = [], [], []
        if self.r.random() < self.w.get("guardact", 0) * .1:
            # guards that escape, throw, capture or catch themselves
            if self.r.random() < .6:
                ge.append(self.guardexpr(sc))
            if self.r.random() < .5:
                gb.append(self.guardexpr(sc))
        self.guard += 1
        if self.r.random() < self.w.get("guardwork", 0) * .3:
            gb.append(self.pure_assign(sc))
            ga.append(self.pure_assign(sc))
        self.guard -= 1
        if self.shguards and self.r.random() < self.shguards:
            # the same guard procedures as other extents
            return [S("dynamic-wind"), S("genter"), [S("lambda"), []] + self.body(d, sc), S("gleave")]
        return [S("dynamic-wind"),
                [S("lambda"), []] + gb + [[S("emit"), q(S("in%d" % n)), self.r.choice(sc + [S("g0")])]],
                [S("lambda"), []] + self.body(d, sc),
                [S("lambda"), []] + ga + [[S("emit"), q(S("out%d" % n)), self.r.choice(sc + [S("g0")])]] + ge]

    def guardexpr(self, sc):
        r = self.r
        x = r.random()
        if x < .3:
            return [S("if"), [S("<"), self.expr(0, sc), self.expr(0, sc)], [S("throw"), self.tag(), self.expr(0, sc)], 0]
        if x < .6:
            return [S("reenter"), S("k%d" % r.randint(0, 2)), self.expr(0, sc)]
        return self.expr(2, sc)

    def pure_assign(self, sc):
        v = self.r.choice(sc + [S("g0"), S("g1"), S("g2")])
        return [S("set!"), v, [S("clip"), [S("+"), v, self.r.randint(1, 3)]]]

    def e_guardact(self, d, sc):
        return self.e_wind(d, sc)

    def e_guardwork(self, d, sc):
        return self.e_wind(d, sc)

    def e_catch(self, d, sc):
        key, args = self.fresh("key"), self.fresh("args")
        tag = True if self.r.random() < .35 else self.tag()
        h = []
        if tag is not True:
            h.append([S("emit"), q(S("h")), [S("cons"), key, args]])
        else:
            h.append(self.em("h", 0))
        return [S("catch"), tag, [S("lambda"), []] + self.body(d, sc), [S("lambda"), [key, S("."), args]] + h + [self.expr(d, sc)]]

    def e_throw(self, d, sc):
        return [S("throw"), self.tag()] + [self.expr(d, sc) for _ in range(self.r.choice([0, 1, 2]))]

    def e_err(self, d, sc):
        return self.r.choice([[S("car"), 7], [S("vector-ref"), S("vec"), 9], [S("+"), 1, [S("quote"), S("a")]]])

    def e_lambda(self, d, sc):
        vs = [self.fresh("a") for _ in range(self.r.choice([1, 2, 3]))]
        return [[S("lambda"), vs] + self.body(d, sc + vs)] + [self.expr(d, sc) for _ in vs]

    def e_map(self, d, sc):
        x = self.fresh("x")
        n = self.r.randint(1, 3)
        if self.r.random() < .3:
            y = self.fresh("y")
            return [S("apply"), S("+"), [S("map"), [S("lambda"), [x, y]] + self.body(d, sc + [x, y]), [S("list")] + [self.expr(d, sc) for _ in range(n)], [S("list")] + [self.expr(d, sc) for _ in range(n)]]]
        return [S("apply"), S("+"), [S(self.r.choice(["map", "map", "map-in-order"])), [S("lambda"), [x]] + self.body(d, sc + [x]), [S("list")] + [self.expr(d, sc) for _ in range(n)]]]

    def e_foreach(self, d, sc):
        x = self.fresh("x")
        n = self.r.randint(1, 3)
        return [S("begin"), [S("for-each"), [S("lambda"), [x]] + self.body(d, sc + [x]), [S("list")] + [self.expr(d, sc) for _ in range(n)]], self.expr(d, sc)]

    def e_apply(self, d, sc):
        a, b = self.fresh("a"), self.fresh("b")
        u, l = self.fresh("u"), self.fresh("l")
        return [S("let"), [[u, self.expr(d, sc)], [l, [S("list"), self.expr(d, sc)]]], [S("apply"), [S("lambda"), [a, b]] + self.body(d, sc + [a, b]), u, l]]

    def e_call(self, d, sc):
        if not self.fnarity:
            return self.e_add(d, sc)
        f = self.r.choice(sorted(self.fnarity))
        return [S(f)] + [self.expr(d, sc) for _ in range(self.fnarity[f])]

    def e_promise(self, d, sc):
        p = self.fresh("p")
        return [S("let"), [[p, [S("delay"), [S("begin"), self.em("d", self.expr(d, sc)), self.expr(d, sc)]]]], [S("+"), [S("force"), p], [S("force"), p]]]

    def e_force(self, d, sc):
        return [S("force"), S("p%d" % self.r.randint(0, self.nprom - 1))]

    def e_loop(self, d, sc):
        f, i, a = self.fresh("loop"), self.fresh("i"), self.fresh("acc")
        return [S("let"), f, [[i, 0], [a, self.expr(d, sc)]], [S("if"), [S("<"), i, self.r.randint(1, 3)], [f, [S("+"), i, 1], [S("clip"), [S("+"), a, self.expr(d, sc + [i, a])]]], a]]

    def e_do(self, d, sc):
        i, a, b = self.fresh("i"), self.fresh("a"), self.fresh("b")
        extra = self.r.random() < .5
        sc2 = sc + ([i, a, b] if extra else [i, a])
        binds = [[i, 0, [S("+"), i, 1]], [a, self.expr(d, sc), [S("clip"), [S("+"), a, self.expr(d, sc2) if self.r.random() < .6 else i]]]]
        if extra:
            binds.insert(self.r.randint(0, 2), [b, self.expr(d, sc)])
        body = [S("set!"), S("g2"), [S("clip"), [S("+"), S("g2"), i]]] if self.r.random() < .4 else self.stmt(d, sc2)
        return [S("do"), binds, [[S("="), i, self.r.randint(1, 3)], a], body]

    def e_vec(self, d, sc):
        return [S("vector-ref"), S("vec"), self.r.randint(0, 3)]

    def e_tstep(self, d, sc):
        return [S("tstep"), self.expr(d, sc)]

    def e_values(self, d, sc):
        a, b = self.fresh("a"), self.fresh("b")
        if self.r.random() < .3:  # R5RS's definition of values
            k, u, l = self.fresh("k"), self.fresh("u"), self.fresh("l")
            return [S("call-with-values"), [S("lambda"), [], [S("call/cc"), [S("lambda"), [k], [S("let"), [[u, self.expr(d, sc)], [l, [S("list"), self.expr(d, sc)]]], [S("apply"), k, u, l]]]]],
                    [S("lambda"), [a, b], self.expr(d, sc + [a, b])]]
        return [S("call-with-values"), [S("lambda"), [], [S("values"), self.expr(d, sc), self.expr(d, sc)]], [S("lambda"), [a, b], self.expr(d, sc + [a, b])]]

    def e_str(self, d, sc):
        return [S("string-length"), [S("string-append"), [S("number->string"), self.expr(d, sc)], Str(self.r.choice(["ab", "x", "qwerty"]))]]

    def e_garbage(self, d, sc):
        x = self.fresh("x")
        n = self.r.randint(1, 4)
        return [S("vector-ref"), [S("list->vector"), [S("map"), [S("lambda"), [x], [S("car"), [S("list"), x, [S("vector"), x, x], Str("garbage")]]], [S("list")] + [self.expr(d, sc)] + [i for i in range(n)]]], 0]

    def program(self, forms=4, depth=5):
        r = self.r
        out = list(SHARED)
        out[1] = [S("define"), S("fuel-max"), r.choice([2, 4, 6, 10])]
        for i in range(self.nproc):
            vs = [self.fresh("a") for _ in range(r.choice([1, 2]))]
            name = "f%d" % i
            self.size += 12
            out.append([S("define"), [S(name)] + vs] + self.body(3, vs))
            self.fnarity[name] = len(vs)
        for i in range(self.nprom):
            self.size += 8
            out.append([S("define"), S("p%d" % i), [S("delay"), [S("begin"), self.em("d", S("g0")), self.expr(3, [])]]])
        if self.shguards:
            out += sx(SHGUARDS)
        if self.w.get("load"):
            for i in range(r.choice([0, 0, 1, 2])):
                self.size += 10
                body = [self.stmt(3, []) for _ in range(r.choice([0, 1, 2]))] + [self.expr(3, [])]
                self.loads["/l/%d.scm" % i] = body
                self.nloads = i + 1
        total = self.size
        for i in range(forms):
            self.size = max(12, total // forms + r.randint(-4, 10))
            x = self.anyx(depth, []) if self.any and r.random() < self.any else self.expr(depth, [])
            out.append([S("emit"), q(S("top%d" % i)), x])
        for i in range(2):
            out.append([S("emit"), q(S("again%d" % i)), [S("reenter"), S("k%d" % r.randint(0, 2)), r.randint(100, 120)]])
        out.append([S("emit"), q(S("end")), [S("list"), S("g0"), S("g1"), S("g2"), S("fuel"), S("vec"), S("wi"), S("wo")]])
        if self.holds:
            out.append([S("emit"), q(S("held")), S("held")])
        pre = []
        if self.usemtab:
            pre += sx(MTAB)
        if self.usemacros:
            pre += sx(MACROS)
        if self.usehtab:
            pre += sx(HTAB % r.choice([1, 2, 31]))
        return out[:len(SHARED)] + pre + out[len(SHARED):]

"""Random typed data programs over the builtin surface (differential workloads for the collector)."""
from vf.model import S

PRE = r"""
(define (emit tag x) (write tag) (write-char #\space) (write x) (newline))
(define (touch n) (close-input-port (open-input-file (string-append "/t/" (number->string n)))) n)
(define (tstr f) (call-with-output-string f))
(define (nth l k) (if (null? l) 0 (if (= k 0) (car l) (nth (cdr l) (- k 1)))))
(define (take l k) (if (= k 0) '() (if (null? l) '() (cons (car l) (take (cdr l) (- k 1))))))
(define (keep f l) (if (null? l) '() (if (f (car l)) (cons (car l) (keep f (cdr l))) (keep f (cdr l)))))
(define (clip x) (remainder x 10007))
(define (hsum h) (hash-fold (lambda (k v acc) (+ v acc)) 0 h))
(define (sub s n) (substring s 0 (if (< (string-length s) n) (string-length s) n)))
(define-macro (twice x) `(list ,x ,x))
(define-macro (my-or2 a b) `(let ((tmp-m ,a)) (if tmp-m tmp-m ,b)))
"""


# Optional features: (definitions, statements used in between, final observations).  {t} is a
# generated expression of type t, {N} a number unique to the feature instance.
FEATURES = {
    "variable": (["(define V{N} (make-variable {li}))"], ["(variable-set! V{N} {li})", "(emit 'var (variable-ref V{N}))", "(variable-set! V{N} (cons {int} (take (variable-ref V{N}) 8)))"], ["(emit 'var (variable-ref V{N}))"]),
    "softout": (["(define acc{N} '())", "(define SP{N} (make-soft-port (vector (lambda (c) (set! acc{N} (cons c (take acc{N} 30)))) (lambda (s) (set! acc{N} (cons s (take acc{N} 30)))) (lambda () (set! acc{N} (cons 'flush acc{N}))) #f (lambda () #t)) \"w\"))"],
                ["(write-char #\\x SP{N})", "(display {str} SP{N})", "(write {la} SP{N})", "(newline SP{N})", "(force-output SP{N})"], ["(emit 'soft acc{N})"]),
    "softin": (["(define cs{N} (string->list \"(alpha \\\"beta\\\" 12) gamma (d e f) 77\"))", "(define SI{N} (make-soft-port (vector #f #f #f (lambda () (if (null? cs{N}) #f (let ((c (car cs{N}))) (set! cs{N} (cdr cs{N})) c))) (lambda () #t)) \"r\"))"],
               ["(emit 'rc (let ((c (read-char SI{N}))) (if (char? c) c 'eof)))", "(emit 'pk (let ((c (peek-char SI{N}))) (if (char? c) c 'eof)))", "(emit 'rd (let ((c (read SI{N}))) (if (eof-object? c) 'eof c)))"], []),
    "strin": (["(define IP{N} (open-input-string (string-append {str} \"(one (two \\\"three\\\")) four five 6 #\\\\a\")))"],
              ["(emit 'rc (let ((c (read-char IP{N}))) (if (char? c) c 'eof)))", "(emit 'rd (let ((c (read IP{N}))) (if (eof-object? c) 'eof c)))", "(emit 'pk (let ((c (peek-char IP{N}))) (if (char? c) c 'eof)))"], []),
    "strout": (["(define OP{N} (open-output-string))"], ["(write {la} OP{N})", "(display {str} OP{N})", "(write-char #\\z OP{N})", "(newline OP{N})"], ["(emit 'sout (get-output-string OP{N}))"]),
    "filein": (["(define FP{N} (open-input-file \"/data.txt\"))"], ["(emit 'fr (let ((c (read FP{N}))) (if (eof-object? c) 'eof c)))", "(emit 'fc (let ((c (read-char FP{N}))) (if (char? c) c 'eof)))"], ["(close-input-port FP{N})"]),
    "fileout": (["(define WP{N} (open-output-file \"/out{N}.txt\"))"], ["(write {la} WP{N})", "(display {str} WP{N})", "(newline WP{N})"], ["(close-output-port WP{N})", "(emit 'fo (call-with-input-file \"/out{N}.txt\" (lambda (p) (let lp ((n 0)) (if (eof-object? (read-char p)) n (lp (+ n 1)))))))"]),
    "macro": (["(define-macro (mac{N} x) (list 'list x (list 'quote (map (lambda (y) (cons y x)) '(p q))) {int}))", "(define-macro (mac2{N} a . b) `(let ((t ,a)) (cons t (list ,@b))))"],
              ["(emit 'mac (mac{N} {int}))", "(emit 'mac2 (mac2{N} {int} {int} {str}))", "(emit 'mac3 (map (lambda (i) (mac2{N} i {int})) {li}))"], []),
    "cont": (["(define K{N} #f)", "(define fuel{N} 0)", "(emit 'kont (let ((a {li}) (s {str}) (v {vec})) (let ((r (call/cc (lambda (k) (set! K{N} k) {int})))) (list r (length a) s (vector-length v) a))))"],
             ["(if (< fuel{N} 4) (begin (set! fuel{N} (+ fuel{N} 1)) (K{N} {int})) 0)", "(emit 'nested (list {int} (if (< fuel{N} 4) (begin (set! fuel{N} (+ fuel{N} 1)) (K{N} {str})) 0)))"], ["(emit 'fuel fuel{N})"]),
    "gen": (["(define gk{N} #f)", "(define gret{N} #f)", "(define (gen{N} l) (call/cc (lambda (r) (set! gret{N} r) (if gk{N} (gk{N} 0) (begin (for-each (lambda (x) (call/cc (lambda (k) (set! gk{N} k) (gret{N} (list x (string-append \"g\" (number->string x))))))) l) (gret{N} 'end))))))"],
            ["(emit 'gen (gen{N} (list 1 2 3 4 5)))"], []),
    "module": (["(use-modules (mod alpha))"], ["(emit 'm (alpha-get {int}))", "(emit 'm (alpha-add! {str}))", "(emit 'm (alpha-show))"], ["(emit 'mod (alpha-show))"]),
    "load": (["(load \"/lib{L}.scm\")"], ["(emit 'lib (lib-fn {int}))", "(load \"/lib{L}.scm\")", "(emit 'lib (lib-list {str}))"], ["(emit 'lib lib-data)"]),
    "smob": (["(define ST{N} (scm-make-smob-type \"thing\" 0))", "(define SM{N} (scm-make-smob ST{N} {int}))"], ["(emit 'sm (scm-smob-data SM{N}))", "(set! SM{N} (scm-make-smob ST{N} {int}))"], ["(emit 'sm (scm-smob-data SM{N}))"]),
    "cycle": (["(define cy{N} (list 1 2 3))", "(set-cdr! (cddr cy{N}) cy{N})"], ["(emit 'cy (take cy{N} 7))", "(set-car! (cdr cy{N}) {int})", "(set! cy{N} (let ((l (list {int} {str} {int}))) (set-cdr! (cddr l) l) l))"], ["(emit 'cy (take cy{N} 8))"]),
    "nest": (["(define NV{N} (make-vector 6 '()))", "(define NH{N} (make-hash-table))"], ["(vector-set! NV{N} {sm} (list {la} {str}))", "(vector-set! NV{N} {sm} (vector {int} {str} NV{N}))", "(hash-set! NH{N} {sm} (list {li} (vector {str})))", "(emit 'nh (let ((x (hash-ref NH{N} {sm}))) (if x x 'none-there)))", "(emit 'nv (let ((x (vector-ref NV{N} {sm}))) (if (vector? x) (vector-ref x 1) x)))"], ["(emit 'nh (hash-fold (lambda (k v a) (+ a 1)) 0 NH{N}))"]),
    "big": (["(define BV{N} (make-vector 1500 '()))", "(define BL{N} '())"], ["(vector-set! BV{N} {int100} (list {int} {str}))", "(set! BL{N} (vector->list (make-vector 200 {str})))", "(emit 'bv (vector-ref BV{N} {int100}))", "(set! BV{N} (list->vector (vector->list BV{N})))", "(emit 'bs (string-length (make-string 3000 #\\q)))"], ["(emit 'bl (length BL{N}))", "(emit 'bv (take (keep pair? (vector->list BV{N})) 6))"]),
    "counter": (["(define CT{N} (let ((n 0) (log '())) (lambda (x) (set! n (+ n 1)) (set! log (cons (list n x) (take log 6))) log)))"], ["(emit 'ct (CT{N} {str}))", "(CT{N} {la})"], ["(emit 'ct (CT{N} 'last))"]),
    "promstream": (["(define (ints{N} n) (cons (list n (number->string n)) (delay (ints{N} (+ n 1)))))", "(define ST{N} (ints{N} 0))", "(define (stail{N} s k) (if (= k 0) s (stail{N} (force (cdr s)) (- k 1))))"], ["(emit 'st (car (stail{N} ST{N} {sm})))", "(set! ST{N} (stail{N} ST{N} {sm}))"], ["(emit 'st (car ST{N}))"]),
    "catchlog": (["(define CL{N} '())"], ["(catch #t (lambda () (dynamic-wind (lambda () (set! CL{N} (cons 'in (take CL{N} 20)))) (lambda () (throw 'oops {la} {str})) (lambda () (set! CL{N} (cons 'out CL{N}))))) (lambda (k . a) (set! CL{N} (cons (cons k a) CL{N}))))"], ["(emit 'cl CL{N})"]),
    "eval": ([], ["(emit 'ev (eval (list 'let (list (list 'q {int})) (list '+ 'q 1)) ))", "(eval (list 'define 'evdef{N} {int}) )", "(emit 'ev (eval (read (open-input-string \"(map (lambda (x) (* x x)) (list 1 2 3))\")) ))"], []),
    "gensym": ([], ["(emit 'gs (symbol? (gensym)))", "(emit 'gs (eq? (gensym) (gensym)))", "(emit 'sym (eq? (string->symbol (string-append \"sy\" \"m\")) 'sym))", "(emit 'sy (string->symbol (string-append \"fresh\" {str})))"], []),
    "alist": (["(define AL{N} '())"], ["(set! AL{N} (assoc-set! AL{N} {str} {la}))", "(set! AL{N} (assoc-remove! AL{N} {str}))", "(emit 'al (assoc {str} AL{N}))", "(set! AL{N} (take (acons {sym} {vec} AL{N}) 10))"], ["(emit 'al (length AL{N}))"]),
}
FILES = {
    "/data.txt": "(a (b \"c\" 1.5) #(1 2)) sym 42 \"a string\" (last one) " + " ".join("(item %d \"v%d\")" % (i, i) for i in range(40)),
    "mod/alpha.scm": """(define-module (mod alpha) #:export (alpha-get alpha-add! alpha-show))
(define store '())
(define (alpha-get n) (list n (length store)))
(define (alpha-add! x) (set! store (cons x (if (> (length store) 6) (list (car store)) store))) store)
(define (alpha-show) (map (lambda (x) (list x 'shown)) store))
""",
    "/lib1.scm": """(define lib-data (list 'lib (string-append "v" "1") (vector 1 2 3)))
(define (lib-fn n) (list n lib-data))
(define (lib-list s) (map (lambda (x) (string-append x s)) (list "a" "b")))
""",
    "/lib2.scm": """(define lib-tab (make-hash-table))
(hash-set! lib-tab 'k (list 1 2))
(define lib-data (let ((x (list 9 8 7))) (delay x)))
(define (lib-fn n) (cons n (force lib-data)))
(define (lib-list s) (list (hash-ref lib-tab 'k) s))
(define lib-data (list "second"))
(define (lib-fn n) (cons n lib-data))
""",
}


class Gen:
    def __init__(self, rng, size=60):
        self.r = rng
        self.size = size
        self.n = 0
        self.extra, self.finals, self.features = [], [], []
        self.vars = {"int": [], "str": [], "li": [], "la": [], "vec": [], "al": [], "h": [], "sym": [], "thunk": [], "prom": []}

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def pick(self, opts):
        return self.r.choice(opts)

    def e(self, t, d, sc):
        self.size -= 1
        vs = self.vars.get(t, []) + [v for v, vt in sc if vt == t]
        if d <= 0 or self.size <= 0:
            if vs and self.r.random() < .6:
                return self.r.choice(vs)
            return self.leaf(t)
        if vs and self.r.random() < .18:
            return self.r.choice(vs)
        if self.r.random() < .22:
            return self.wrap(t, d - 1, sc)
        return getattr(self, "t_" + t)(d - 1, sc)

    def leaf(self, t):
        r = self.r
        if t == "int":
            return str(r.randint(-20, 99))
        if t == "str":
            return '"%s"' % "".join(r.choice("abc XYZ") for _ in range(r.choice([0, 1, 3, 8, 20])))
        if t == "sym":
            return "'" + r.choice(["a", "b", "foo", "bar", "quux-long-symbol-name"])
        if t == "li":
            return "(list %s)" % " ".join(str(r.randint(0, 50)) for _ in range(r.randint(0, 6)))
        if t == "la":
            return r.choice(["(list 'a \"s\" 3)", "'(x (y z) \"w\" 4)", "(list (list 1 2) #\\a)", "'()"])
        if t == "vec":
            return "(vector %s)" % " ".join(str(r.randint(0, 50)) for _ in range(r.choice([1, 2, 5, 20, 60])))
        if t == "al":
            return "(list (cons 'a %d) (cons 'b %d))" % (r.randint(0, 9), r.randint(0, 9))
        if t == "h":
            return "(make-hash-table)" if r.random() < .5 else "(make-hash-table 5)"
        if t == "bool":
            return r.choice(["#t", "#f"])
        if t == "thunk":
            return "(lambda () %d)" % r.randint(0, 9)
        if t == "prom":
            return "(delay %d)" % r.randint(0, 9)
        raise KeyError(t)

    def wrap(self, t, d, sc):
        """binding, control and procedure forms around an expression of any type"""
        r = self.r
        k = r.choice(["let", "let2", "let*", "letrec", "lambda", "begin", "if", "cond", "case", "callcc", "catch", "throw", "wind", "apply", "named", "values", "force", "macro", "eval", "rest", "do", "inner", "define", "forsum"])
        E = self.e
        if k == "let":
            vt = r.choice(["int", "str", "li", "vec", "al", "la", "sym"])
            v = self.fresh("v")
            return "(let ((%s %s)) %s)" % (v, E(vt, d, sc), E(t, d, sc + [(v, vt)]))
        if k == "let2":
            a, b = r.choice(["int", "str", "li"]), r.choice(["vec", "la", "int"])
            v, w = self.fresh("v"), self.fresh("w")
            return "(let ((%s %s) (%s %s)) %s)" % (v, E(a, d, sc), w, E(b, d, sc), E(t, d, sc + [(v, a), (w, b)]))
        if k == "let*":
            a, b = r.choice(["int", "str", "li"]), r.choice(["li", "la", "int"])
            v, w = self.fresh("v"), self.fresh("w")
            return "(let* ((%s %s) (%s %s)) %s)" % (v, E(a, d, sc), w, E(b, d, sc + [(v, a)]), E(t, d, sc + [(v, a), (w, b)]))
        if k == "letrec":
            f = self.fresh("f")
            return "(letrec ((%s (lambda (i acc) (if (= i 0) acc (%s (- i 1) %s))))) (%s %d %s))" % (f, f, E(t, d, sc + [("i", "int"), ("acc", t)]), f, r.randint(0, 4), E(t, d, sc))
        if k == "lambda":
            vt = r.choice(["int", "str", "li", "vec"])
            v = self.fresh("a")
            return "((lambda (%s) %s) %s)" % (v, E(t, d, sc + [(v, vt)]), E(vt, d, sc))
        if k == "rest":
            v = self.fresh("rest")
            return "((lambda (x . %s) %s) %s %s %s)" % (v, E(t, d, sc + [(v, "li")]), E("int", d, sc), E("int", d, sc), E("int", d, sc))
        if k == "begin":
            return "(begin %s %s)" % (self.stmt(d, sc), E(t, d, sc))
        if k == "if":
            return "(if %s %s %s)" % (self.t_bool(d, sc), E(t, d, sc), E(t, d, sc))
        if k == "cond":
            return "(cond (%s %s) (else %s))" % (self.t_bool(d, sc), E(t, d, sc), E(t, d, sc))
        if k == "case":
            return "(case (remainder %s 3) ((0) %s) ((1 -1) %s) (else %s))" % (E("int", d, sc), E(t, d, sc), E(t, d, sc), E(t, d, sc))
        if k == "callcc":
            kk = self.fresh("k")
            return "(call/cc (lambda (%s) %s))" % (kk, r.choice(["(%s %s)" % (kk, E(t, d, sc)), "(begin (if %s (%s %s) 0) %s)" % (self.t_bool(d, sc), kk, E(t, d, sc), E(t, d, sc))]))
        if k == "catch":
            return "(catch 'tg (lambda () %s) (lambda (key . args) %s))" % (E(t, d, sc), E(t, d, sc))
        if k == "throw":
            return "(catch 'tg (lambda () (throw 'tg %s)) (lambda (key . args) (car args)))" % E(t, d, sc)
        if k == "wind":
            return "(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))" % (self.stmt(0, sc), E(t, d, sc), self.stmt(0, sc))
        if k == "apply":
            v, w = self.fresh("a"), self.fresh("b")
            u = self.fresh("u")
            return "(let ((%s (list %s %s))) (apply (lambda (%s %s) %s) %s))" % (u, E("int", d, sc), E("str", d, sc), v, w, E(t, d, sc + [(v, "int"), (w, "str")]), u)
        if k == "named":
            f = self.fresh("lp")
            return "(let %s ((i 0) (acc %s)) (if (< i %d) (%s (+ i 1) %s) acc))" % (f, E(t, d, sc), r.randint(0, 4), f, E(t, d, sc + [("i", "int"), ("acc", t)]))
        if k == "values":
            return "(call-with-values (lambda () (values %s %s)) (lambda (va vb) %s))" % (E("int", d, sc), E("str", d, sc), E(t, d, sc + [("va", "int"), ("vb", "str")]))
        if k == "force":
            return "(force (delay %s))" % E(t, d, sc)
        if k == "macro":
            return "(my-or2 #f %s)" % E(t, d, sc) if t != "bool" else self.t_bool(d, sc)
        if k == "eval":
            if sc:
                return E(t, d, sc)
            return "(eval '%s )" % E(t, d, [])
        if k == "do":
            return "(do ((i 0 (+ i 1)) (x %s %s)) ((= i %d) x) %s)" % (E(t, d, sc), E(t, d, sc + [("i", "int"), ("x", t)]), r.randint(0, 3), self.stmt(0, sc + [("i", "int")]))
        if k == "forsum":
            return "(begin (for-each (lambda (x) %s) %s) %s)" % (self.stmt(d, sc + [("x", "int")]), E("li", d, sc), E(t, d, sc))
        if k == "inner":
            f, x = self.fresh("g"), self.fresh("x")
            return "(let ((%s (lambda (%s) %s))) (%s %s))" % (f, x, E(t, d, sc + [(x, "int")]), f, E("int", d, sc))
        return E(t, d, sc)

    def t_int(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(clip (+ %s %s))" % (E("int", d, sc), E("int", d, sc)),
            lambda: "(clip (* %s %s))" % (E("int", d, sc), E("int", d, sc)),
            lambda: "(- %s %s)" % (E("int", d, sc), E("int", d, sc)),
            lambda: "(length %s)" % E("li", d, sc),
            lambda: "(length %s)" % E("la", d, sc),
            lambda: "(nth %s %d)" % (E("li", d, sc), r.randint(0, 4)),
            lambda: "(vector-length %s)" % E("vec", d, sc),
            lambda: "(vector-ref %s 0)" % E("vec", d, sc),
            lambda: "(string-length %s)" % E("str", d, sc),
            lambda: "(apply + %s)" % E("li", d, sc),
            lambda: "(apply max (list %s %s))" % (E("int", d, sc), E("int", d, sc)),
            lambda: "(or (assoc-ref %s 'a) 0)" % E("al", d, sc),
            lambda: "(let ((p (assq 'b %s))) (if p (cdr p) 0))" % E("al", d, sc),
            lambda: "(hsum %s)" % E("h", d, sc),
            lambda: "(or (hash-ref %s %s) 0)" % (E("h", d, sc), self.key(d, sc)),
            lambda: "(force %s)" % E("prom", d, sc),
            lambda: "(%s)" % E("thunk", d, sc),
            lambda: "(char->integer #\\%s)" % r.choice("abz"),
            lambda: "(string->number (number->string %s))" % E("int", d, sc),
            lambda: "(quotient %s 3)" % E("int", d, sc),
            lambda: "(abs %s)" % E("int", d, sc),
            lambda: "(catch #t (lambda () (vector-ref (vector 1) %s)) (lambda (k . a) -1))" % E("int", d, sc),
            lambda: "(catch #t (lambda () (car %s)) (lambda (k . a) -2))" % E("li", d, sc),
            lambda: "(catch #t (lambda () (touch %d)) (lambda (k . a) -3))" % self.touch(),
        ])()

    def touch(self):
        self.n += 1
        return self.n

    def t_str(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(string-append %s %s)" % (E("str", d, sc), E("str", d, sc)),
            lambda: "(sub (string-append %s %s) 40)" % (E("str", d, sc), E("str", d, sc)),
            lambda: "(number->string %s)" % E("int", d, sc),
            lambda: "(symbol->string %s)" % E("sym", d, sc),
            lambda: "(list->string (string->list %s))" % E("str", d, sc),
            lambda: "(list->string (reverse (string->list %s)))" % E("str", d, sc),
            lambda: "(tstr (lambda (p) (write %s p)))" % E(r.choice(["li", "la", "vec", "al", "str", "int"]), d, sc),
            lambda: "(tstr (lambda (p) (display %s p) (newline p)))" % E(r.choice(["li", "la", "str"]), d, sc),
            lambda: "(let ((op (open-output-string))) (write %s op) (display %s op) (get-output-string op))" % (E("sym", d, sc), E("int", d, sc)),
            lambda: "(make-string %d #\\x)" % r.choice([0, 1, 17, 200]),
            lambda: "(string #\\a #\\b)",
            lambda: "(substring %s 0 0)" % E("str", d, sc),
            lambda: "(let ((s (make-string 3 #\\-))) (string-set! s 1 #\\%s) s)" % r.choice("abc"),
        ])()

    def t_sym(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(string->symbol (sub %s 12))" % E("str", d, sc) if False else "(string->symbol \"%s\")" % self.pick(["dyn-a", "dyn-b", "zz"]),
            lambda: "(string->symbol (string-append \"s\" (number->string %s)))" % E("int", d, sc),
            lambda: "(car (list %s 1))" % E("sym", d, sc),
        ])()

    def t_li(self, d, sc):
        E, r = self.e, self.r
        x = self.fresh("x")
        return r.choice([
            lambda: "(list %s)" % " ".join(E("int", d, sc) for _ in range(r.randint(1, 4))),
            lambda: "(cons %s %s)" % (E("int", d, sc), E("li", d, sc)),
            lambda: "(take (append %s %s) 12)" % (E("li", d, sc), E("li", d, sc)),
            lambda: "(reverse %s)" % E("li", d, sc),
            lambda: "(map (lambda (%s) %s) (take %s 5))" % (x, E("int", d, sc + [(x, "int")]), E("li", d, sc)),
            lambda: "(map (lambda (%s y) %s) (take %s 3) (take %s 3))" % (x, E("int", d, sc + [(x, "int"), ("y", "int")]), E("li", d, sc), E("li", d, sc)),
            lambda: "(map-in-order (lambda (%s) %s) (take %s 4))" % (x, E("int", d, sc + [(x, "int")]), E("li", d, sc)),
            lambda: "(vector->list %s)" % E("vec", d, sc),
            lambda: "`(,%s ,@%s 7)" % (E("int", d, sc), E("li", d, sc)),
            lambda: "(keep (lambda (%s) (< %s %s)) %s)" % (x, x, E("int", d, sc), E("li", d, sc)),
            lambda: "(twice %s)" % E("int", d, sc),
            lambda: "(list-tail (list 1 2 3 4) %d)" % r.randint(0, 3),
            lambda: "(list-head (list 1 2 3 4) %d)" % r.randint(0, 3),
            lambda: "(map cdr %s)" % E("al", d, sc),
            lambda: "(let lp ((i 0)) (if (< i %d) (cons i (lp (+ i 1))) '()))" % r.choice([3, 20, 60]),
            lambda: "(map char->integer (string->list (sub %s 5)))" % E("str", d, sc),
        ])()

    def t_la(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(list %s %s)" % (E(r.choice(["sym", "str", "li", "int"]), d, sc), E(r.choice(["sym", "str", "vec", "la"]), d, sc)),
            lambda: "(cons %s %s)" % (E(r.choice(["sym", "str", "int"]), d, sc), E("la", d, sc)),
            lambda: "(read (open-input-string \"(p (q r) 12 \\\"t\\\")\"))",
            lambda: "(call-with-input-string \"(1 . (2 3))\" read)" if False else "(list (string->list %s))" % '"ab"',
            lambda: "`(a ,%s (b ,%s))" % (E("str", d, sc), E("int", d, sc)),
            lambda: "(append %s %s)" % (E("la", d, sc), E("la", 0, sc)),
            lambda: "(list (map symbol->string (list %s 'k)))" % E("sym", d, sc),
        ])()

    def t_vec(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(vector %s)" % " ".join(E("int", d, sc) for _ in range(r.randint(1, 4))),
            lambda: "(list->vector (cons %s %s))" % (E("int", d, sc), E("li", d, sc)),
            lambda: "(make-vector %d %s)" % (r.choice([1, 5, 40, 300]), E("int", d, sc)),
            lambda: "(let ((v (make-vector 3 0))) (vector-set! v 1 %s) (vector-set! v 2 %s) v)" % (E("int", d, sc), E("int", d, sc)),
        ])()

    def t_al(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(acons %s %s %s)" % (E("sym", d, sc), E("int", d, sc), E("al", d, sc)),
            lambda: "(assq-set! (list (cons 'a 1) (cons 'b 2)) %s %s)" % (E("sym", 0, sc), E("int", d, sc)),
            lambda: "(map (lambda (p) (cons (car p) %s)) %s)" % (E("int", d, sc), E("al", d, sc)),
        ])()

    def t_h(self, d, sc):
        E, r = self.e, self.r
        ops = " ".join("(hash-set! h %s %s)" % (self.key(d, sc), E("int", d, sc)) for _ in range(r.randint(1, 3)))
        return "(let ((h (make-hash-table))) %s h)" % ops

    def key(self, d, sc):
        return self.e(self.r.choice(["int", "sym", "str", "sym"]), d, sc)

    def t_bool(self, d, sc):
        E, r = self.e, self.r
        return r.choice([
            lambda: "(< %s %s)" % (E("int", d, sc), E("int", d, sc)),
            lambda: "(equal? %s %s)" % (E("li", d, sc), E("li", d, sc)),
            lambda: "(eq? %s %s)" % (E("sym", d, sc), E("sym", d, sc)),
            lambda: "(string=? %s %s)" % (E("str", d, sc), E("str", d, sc)),
            lambda: "(null? %s)" % E("li", d, sc),
            lambda: "(if (member %s %s) #t #f)" % (E("int", d, sc), E("li", d, sc)),
        ])()

    def t_thunk(self, d, sc):
        return "(lambda () %s)" % self.norec("int", d, sc)

    def norec(self, t, d, sc):
        """no calls through mutable thunks or promises: those could close a loop"""
        a, b = self.vars["thunk"], self.vars["prom"]
        self.vars["thunk"], self.vars["prom"] = [], []
        x = self.e(t, d, sc)
        self.vars["thunk"], self.vars["prom"] = a, b
        return x

    def t_prom(self, d, sc):
        return "(delay %s)" % self.norec("int", d, sc)

    def stmt(self, d, sc):
        E, r = self.e, self.r
        V = self.vars
        opts = [lambda: "(emit '%s %s)" % (self.fresh("e"), E(r.choice(["int", "li", "str", "la"]), d, sc))]
        for t, fs in (("int", ["(set! {v} {int})"]), ("li", ["(set! {v} (take {li} 15))"]), ("str", ["(set! {v} (sub {str} 60))"]),
                      ("vec", ["(vector-set! {v} 0 {int})", "(set! {v} {vec})"]), ("al", ["(set! {v} (take {al} 9))", "(set! {v} (assoc-set! {v} {sym} {int}))"]),
                      ("la", ["(set! {v} (take {la} 6))"]), ("h", ["(hash-set! {v} {key} {int})", "(hash-set! {v} {key} {int})", "(hash-remove! {v} {key})", "(set! {v} {h})"]),
                      ("thunk", ["(set! {v} {thunk})"]), ("prom", ["(set! {v} {prom})"]), ("sym", ["(set! {v} {sym})"])):
            if [v for v in V[t] if v[0] != "("]:
                opts.append(lambda t=t, fs=fs: self.fill(r.choice(fs), r.choice([v for v in V[t] if v[0] != "("]), d, sc))
        if self.extra and r.random() < .5:
            return self.fill(r.choice(self.extra), "", min(d, 2), sc)
        return r.choice(opts)()

    def fill(self, tpl, v, d, sc):
        out = tpl.replace("{v}", v)
        while "{" in out:
            i = out.index("{")
            j = out.index("}")
            t = out[i + 1:j]
            out = out[:i] + (self.key(d, sc) if t == "key" else str(self.r.randint(0, 5)) if t == "sm" else str(self.r.randint(0, 1400)) if t == "int100" else self.e(t, d, sc)).replace("{", "").replace("}", "") + out[j + 1:]
        return out

    def program(self, nform, depth):
        r = self.r
        out = []
        total = self.size
        per = max(8, total // max(1, nform))
        for t in ["int", "li", "vec", "str", "al", "h", "la", "sym", "thunk", "prom"]:
            if r.random() < .75:
                self.size = 10
                v = self.fresh("G" + t)
                x = self.e(t, 3, [])
                out.append("(define %s %s)" % (v, x))
                self.vars[t].append(v)
        for i in range(r.randint(0, 3)):
            f, a, b = self.fresh("fn"), self.fresh("a"), self.fresh("b")
            self.size = 20
            out.append("(define (%s %s %s) %s)" % (f, a, b, self.norec("int", 4, [(a, "int"), (b, "str")])))
            self.vars["thunk"].append("(lambda () (%s 3 \"z\"))" % f)
        for name in r.sample(sorted(FEATURES), r.choice([0, 1, 2, 3])):
            defs, st, fin = FEATURES[name]
            self.n += 1
            inst = lambda x: x.replace("{N}", str(self.n)).replace("{L}", str(1 + self.n % 2))
            defs, st, fin = [inst(x) for x in defs], [inst(x) for x in st], [inst(x) for x in fin]
            for x in defs:
                self.size = 8
                out.append(self.fill(x, "", 2, []))
            self.extra += st
            self.finals += fin
            self.features.append(name)
        for i in range(nform):
            self.size = per
            if r.random() < (.7 if self.extra else .4):
                out.append("(let ((r %s)) (emit 'st 0))" % self.stmt(depth, []))
            else:
                out.append("(emit '%s %s)" % (self.fresh("o"), self.e(r.choice(["int", "li", "str", "vec", "al", "la", "sym", "int"]), depth, [])))
        out += self.finals
        for t in ["int", "li", "vec", "str", "al", "la", "sym"]:
            for v in self.vars[t]:
                out.append("(emit 'final %s)" % v)
        for v in self.vars["h"]:
            out.append("(emit 'final (hsum %s))" % v)
        for v in self.vars["thunk"]:
            out.append("(emit 'final (%s))" % v)
        for v in self.vars["prom"]:
            out.append("(emit 'final (force %s))" % v)
        return out

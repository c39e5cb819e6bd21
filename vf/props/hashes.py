"""H01 hash tables: operation histories against a reference map, with callbacks that fail, escape, change the table or suspend the traversal."""
import collections
from vf.control import gc_knobs
from vf.engine import Outcome
from vf.props.outports import OpsProp

PRE = """(define (put x) (cond ((eq? x fnl) (display "#fnl")) ((eq? x fnm) (display "#fnm")) ((eq? x tb1) (display "#tb1")) ((eq? x tb2) (display "#tb2")) (else (write x))))
(define yk '())
(define (say a b) (begin (display a) (display " ") (display b) (newline)))
(define (op id th) (say id (catch #t (lambda () (begin (th) 'ok)) (lambda a 'err))))
(define (opv id th) (begin (let ((v (catch #t (lambda () (let ((r (th))) (list 1 r))) (lambda a (list 0))))) (begin (display id) (display " ") (if (= (car v) 1) (put (car (cdr v))) (display "err")) (newline)))))
(define (oph id th) (begin (let ((v (catch #t th (lambda a 'err)))) (begin (display id) (display " ") (if (pair? v) (begin (put (car v)) (display " ") (put (cdr v))) (put v)) (newline)))))
(define (act mode n h k v out set rem)
  (cond ((eq? mode 'throw) (throw 'cb n)) ((eq? mode 'esc) (out 'out))
        ((eq? mode 'upd) (set h k (list v n))) ((eq? mode 'rem) (rem h k))
        ((eq? mode 'ins) (set h (list 'new n) n))
        ((eq? mode 'yield) (call/cc (lambda (c) (begin (set! yk (cons c yk)) (out 'out)))))
        (else 0)))
(define (fold id h mode at set rem)
  (begin (let ((n (vector 0)))
    (begin (call/cc (lambda (out)
      (let ((r (catch #t (lambda () (hash-fold (lambda (k v a)
           (begin (vector-set! n 0 (+ 1 (vector-ref n 0)))
                  (display "e ") (display id) (display " ") (put k) (display " ") (put v) (newline)
                  (if (= 0 (remainder (vector-ref n 0) at)) (act mode (vector-ref n 0) h k v out set rem) 0)
                  (+ a 1))) 0 h)) (lambda a 'err))))
        (begin (display "f ") (display id) (display " ") (display r) (newline))))) (display id) (display " ok") (newline)))))
(define (resume) (let ((k (car yk))) (begin (set! yk (cdr yk)) (k 'go))))
(define (fill h set from to by f) (do ((i from (+ i by))) ((>= i to)) (set h (f i) i)))
(define (drain h rem from to by f) (do ((i from (+ i by))) ((>= i to)) (rem h (f i))))
(define (kint i) i)
(define (kstr i) (number->string i))
(define (ksym i) (string->symbol (string-append "s" (number->string i))))
(define (klst i) (list 'k i))
(define (kvec i) (vector i))
(define (kflt i) (+ i 0.5))
(define (fnl a) a)
(define (fnm a) a)
(define tb1 (make-hash-table 3))
(define tb2 (make-hash-table 3))
(define pr1 (list 1 2))
(define pr2 (list 1 3))
(define vc1 (vector 1 2))
(define vc2 (vector 1 3))
"""
OBJ = {"fnl": "#fnl", "fnm": "#fnm", "tb1": "#tb1", "tb2": "#tb2", "pr1": "(1 2)", "pr2": "(1 3)", "vc1": "#(1 2)", "vc2": "#(1 3)"}
STRUCT = {"pr1": ["lst", ["num", 1], ["num", 2]], "pr2": ["lst", ["num", 1], ["num", 3]], "vc1": ["vec", ["num", 1], ["num", 2]], "vc2": ["vec", ["num", 1], ["num", 3]]}
FNS = {"q": ("hashq-set!", "hashq-ref", "hashq-get-handle", "hashq-create-handle!", "hashq-remove!"),
       "v": ("hashv-set!", "hashv-ref", "hashv-get-handle", "hashv-create-handle!", "hashv-remove!"),
       "e": ("hash-set!", "hash-ref", "hash-get-handle", "hash-create-handle!", "hash-remove!")}
BULK = ["kint", "kstr", "ksym", "klst", "kvec", "kflt"]


def bulk_key(f, i):
    return {"kint": ["num", i], "kstr": ["str", str(i)], "ksym": ["sym", "s%d" % i], "klst": ["lst", ["sym", "k"], ["num", i]], "kvec": ["vec", ["num", i]], "kflt": ["flt", i + 0.5]}[f]


def kexpr(k):
    t = k[0]
    if t == "nam":
        return "u%d" % k[1]
    if t == "obj":
        return k[1]
    if t == "vec":
        return "(vector " + " ".join(kexpr(x) for x in k[1:]) + ")"
    if t in ("num", "flt", "chr", "str", "bool"):
        return kshow(k)
    return "'" + kshow(k) if not has_vec(k) else "(list " + " ".join(kexpr(x) for x in k[1:]) + ")"


def has_vec(k):
    return k[0] == "vec" or k[0] in ("lst", "dot") and any(has_vec(x) for x in k[1:])


def kshow(k):
    t = k[0]
    if t == "nam":
        return kshow(k[2])
    if t == "obj":
        return OBJ[k[1]]
    if t == "num":
        return str(k[1])
    if t == "flt":
        return repr(float(k[1]))
    if t == "chr":
        return "#\\" + {" ": "space", "\n": "newline"}.get(k[1], k[1])
    if t == "str":
        return '"' + k[1].replace("\\", "\\\\").replace('"', '\\"') + '"'
    if t == "sym":
        return k[1]
    if t == "bool":
        return "#t" if k[1] else "#f"
    if t == "nil":
        return "()"
    if t == "lst":
        return "(" + " ".join(kshow(x) for x in k[1:]) + ")"
    if t == "dot":
        return "(" + " ".join(kshow(x) for x in k[1:-1]) + " . " + kshow(k[-1]) + ")"
    if t == "vec":
        return "#(" + " ".join(kshow(x) for x in k[1:]) + ")"
    raise ValueError(t)


class Uniq:
    n = 0


def canon(k, fl):
    """key of the reference map; None when each evaluation makes a different key"""
    t = k[0]
    if t == "nam":
        # the same object each time
        return ("o", "u%d" % k[1]) if fl != "e" and k[2][0] in ("lst", "dot", "vec") else canon(k[2], fl)
    if t in ("num", "flt"):
        return ("n", float(k[1]))
    if t == "obj":
        if fl == "e" and k[1] in STRUCT:
            return canon(STRUCT[k[1]], fl)
        return ("o", k[1])
    if t in ("lst", "dot", "vec"):
        if fl != "e":
            Uniq.n += 1
            return ("u", Uniq.n)
        return (t,) + tuple(canon(x, fl) for x in k[1:])
    return tuple(k)


class Gen:
    def __init__(self, rng):
        self.r = rng

    def atom(self):
        r = self.r
        return r.choice([lambda: ["num", r.choice([0, 1, 2, 31, 62, 93, -1, -31, 97, 1000000007, r.randint(-50, 200)])],
                         lambda: ["flt", r.choice([0.5, 1.0, 2.0, -1.0, 97.0, 0.25, 31.0, r.randint(-9, 9) + 0.5])],
                         lambda: ["chr", r.choice("abcA 1")], lambda: ["str", r.choice(["", "a", "b", "ab", "ba", "97", "a b", 'q"'])],
                         lambda: ["sym", r.choice(["a", "b", "ab", "ba", "foo"])], lambda: ["bool", r.random() < .5], lambda: ["nil"]])()

    def key(self, d=2):
        r = self.r
        if d and r.random() < .3:
            t = r.choice(["lst", "lst", "dot", "vec"])
            n = r.randint(1, 3)
            xs = [self.key(d - 1) for _ in range(n)]
            xs = [x if x[0] != "obj" else ["num", 5] for x in xs]
            if t == "dot":
                if any(has_vec(x) for x in xs):
                    t = "lst"
                else:
                    a = self.atom()
                    while a[0] == "nil":
                        a = self.atom()
                    return ["dot"] + xs + [a]
            return [t] + xs
        if d == 2 and r.random() < .2:
            return ["obj", r.choice(sorted(OBJ))]
        return self.atom()

    def case(self):
        r = self.r
        tabs = [{"cap": r.choice([1, 1, 2, 3, 7, 31, 31, 100]), "fl": r.choice("eeeqv")} for _ in range(r.choice([1, 1, 2, 3]))]
        pool = [self.key() for _ in range(r.choice([2, 4, 8, 20]))]
        named = r.choice([0, .5, .5])
        again, lastkey, owned = r.choice([0, .3, .7]), None, []
        ops, n, bulk, grown = [], 0, [], 0
        for _ in range(r.choice([10, 30, 80])):
            n += 1
            h = r.randrange(len(tabs))
            x = r.random()
            o = {"i": n, "h": h}
            if x < .70:
                k = r.choice(["set", "set", "set", "set", "ref", "ref", "han", "rem", "rem", "cre", "hset", "size"])
                o.update(k=k, key=r.choice(pool) if r.random() < .8 else self.key())
                if bulk and r.random() < .2:
                    f, lim = r.choice(bulk)
                    o["key"] = bulk_key(f, r.randint(0, lim))
                if lastkey and r.random() < again:
                    o["key"] = lastkey[0]
                    if r.random() < .8:
                        o["h"] = lastkey[1]
                lastkey = (o["key"], o["h"])
                if o["key"] in pool and r.random() < named:
                    kk, ki = o["key"], pool.index(o["key"])
                    if tabs[o["h"]]["fl"] != "e" and kk[0] in ("lst", "dot", "vec"):
                        # an object of its own that prints like no other
                        kk, ki = ["lst", ["sym", "own"], ["num", ki], ["num", n], kk], 1000 + n
                        owned.append((ki, kk))
                    o["key"] = ["nam", ki, kk]
                elif owned and tabs[o["h"]]["fl"] != "e" and r.random() < .4:
                    o["key"] = ["nam"] + list(r.choice(owned))
                if k in ("set", "cre", "hset"):
                    v = self.key()
                    o["v"] = ["num", n] if v[0] == "obj" or r.random() < .5 else v
            elif x < .85:
                o.update(k="fold", m=r.choice(["no", "no", "throw", "esc", "upd", "rem", "ins", "yield", "yield", "yield"]), at=r.choice([1, 1, 2, 3, 5, 9]))
                if o["m"] == "ins":
                    grown += 1
                    if grown > 2:
                        o["m"] = "no"
            elif x < .93:
                o["k"] = "resume"
            else:
                f = r.choice(BULK)
                lim = r.choice([10, 40, 40, 150])
                bulk.append((f, lim))
                o.update(k=r.choice(["fill", "fill", "drain"]), f=f, a=r.randint(0, 5), b=lim, by=r.choice([1, 1, 2, 3]))
            ops.append(o)
        for h in range(len(tabs)):
            n += 1
            ops.append({"k": "fold", "i": n, "h": h, "m": "no", "at": 1})
        return {"tabs": tabs, "ops": ops}


def render(case):
    out = [PRE]
    for j, t in enumerate(case["tabs"]):
        out.append("(define h%d (make-hash-table %d))" % (j, t["cap"]))
    for i, k in sorted({o["key"][1]: o["key"] for o in case["ops"] if o.get("key", [0])[0] == "nam"}.items()):
        out.append("(define u%d %s)" % (i, kexpr(k[2])))
    for o in case["ops"]:
        f = FNS[case["tabs"][o["h"]]["fl"]]
        h, i, k = "h%d" % o["h"], o["i"], o["k"]
        e = kexpr(o["key"]) if "key" in o else ""
        v = kexpr(o["v"]) if "v" in o else ""
        if k == "set":
            out.append("(op %d (lambda () (%s %s %s %s)))" % (i, f[0], h, e, v))
        elif k == "ref":
            out.append("(opv %d (lambda () (%s %s %s)))" % (i, f[1], h, e))
        elif k == "han":
            out.append("(oph %d (lambda () (%s %s %s)))" % (i, f[2], h, e))
        elif k == "cre":
            out.append("(oph %d (lambda () (%s %s %s %s)))" % (i, f[3], h, e, v))
        elif k == "rem":
            out.append("(op %d (lambda () (%s %s %s)))" % (i, f[4], h, e))
        elif k == "hset":
            out.append("(op %d (lambda () (let ((p (%s %s %s))) (if (pair? p) (set-cdr! p %s) 0))))" % (i, f[2], h, e, v))
        elif k == "size":
            out.append("(begin (display %d) (display \" \") (display %s) (newline))" % (i, h))
        elif k == "fold":
            out.append("(fold %d %s '%s %d %s %s)" % (i, h, o["m"], o["at"], f[0], f[4]))
        elif k == "resume":
            out.append("(op %d (lambda () (if (pair? yk) (resume) 0)))" % i)
        elif k == "fill":
            out.append("(op %d (lambda () (fill %s %s %d %d %d %s)))" % (i, h, f[0], o["a"], o["b"], o["by"], o["f"]))
        elif k == "drain":
            out.append("(op %d (lambda () (drain %s %s %d %d %d %s)))" % (i, h, f[4], o["a"], o["b"], o["by"], o["f"]))
    out.append("(begin (display \"the end\") (newline))")
    return "\n".join(out) + "\n"


class Bad(Exception):
    pass


class Fold:
    """one traversal: what it must, may and did visit"""

    def __init__(self, o, tab):
        self.o, self.h, self.n = o, o["h"], 0
        self.req = {c: (ks, {v}) for c, (ks, v) in tab.items()}
        self.may = {}
        self.seen = set()

    def changed(self, c, ks, v):
        """the table now holds c -> v, or no c when v is None"""
        for d in (self.req, self.may):
            if c in d:
                if v is None:
                    if d is self.req and c not in self.seen:
                        self.may[c] = self.req.pop(c)
                    return
                if d[c][0] == ks:
                    d[c][1].add(v)
                    return
        if v is not None:
            self.may.setdefault((c, ks), (ks, set()))[1].add(v)

    def visit(self, rest):
        """the association printed as rest; returns its map key"""
        for d in (self.req, self.may):
            for c, (ks, vs) in d.items():
                if c not in self.seen and any(rest == ks + " " + v for v in vs):
                    self.seen.add(c)
                    self.n += 1
                    return c if d is self.req else (c[0] if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], tuple) else c)
        raise Bad("traversal %d visited %r, which is not there or was visited before" % (self.o["i"], rest))

    def done(self):
        for c, (ks, vs) in self.req.items():
            if c not in self.seen:
                raise Bad("traversal %d did not visit %s %s" % (self.o["i"], ks, sorted(vs)[0]))


class Judge:
    def __init__(self, case, lines):
        self.case, self.lines, self.p = case, lines, 0
        self.tabs = [collections.OrderedDict() for _ in case["tabs"]]
        self.folds, self.yk = [], []
        self.live = 0

    def take(self):
        if self.p >= len(self.lines):
            raise Bad("the program stopped early")
        self.p += 1
        return self.lines[self.p - 1]

    def want(self, e):
        g = self.take()
        if g != e:
            raise Bad("%r due, %r printed" % (e[:80], g[:80]))

    def put(self, h, c, ks, v):
        t = self.tabs[h]
        t[c] = (t[c][0] if c in t else ks, v)
        for f in self.folds:
            if f.h == h:
                f.changed(c, t[c][0], v)

    def drop(self, h, c):
        if self.tabs[h].pop(c, None) is not None:
            for f in self.folds:
                if f.h == h:
                    f.changed(c, None, None)

    def drive(self, f):
        """lines of a traversal until it ends or leaves"""
        o, h = f.o, f.h
        while True:
            g = self.take()
            if g.startswith("e %d " % o["i"]):
                rest = g.split(" ", 2)[2]
                c = f.visit(rest)
                if f.n % o["at"] == 0:
                    m = o["m"]
                    t = self.tabs[h]
                    if m == "throw":
                        self.folds.remove(f)
                        self.want("f %d err" % o["i"])
                        self.live += 1
                        break
                    if m == "esc":
                        self.folds.remove(f)
                        self.live += 1
                        break
                    if m == "yield":
                        self.yk.insert(0, f)
                        self.live += 1
                        break
                    if m == "upd":
                        v = rest[len(self.kshown(f, c, h, rest)) + 1:]
                        self.put(h, c, self.kshown(f, c, h, rest), "(%s %d)" % (v, f.n))
                    elif m == "rem":
                        self.drop(h, c)
                        self.live += 1
                    elif m == "ins":
                        k = ["lst", ["sym", "new"], ["num", f.n]]
                        self.put(h, canon(k, self.case["tabs"][h]["fl"]), kshow(k), str(f.n))
                continue
            if not g.startswith("f %d " % o["i"]):
                raise Bad("traversal %d running, %r printed" % (o["i"], g[:80]))
            self.folds.remove(f)
            f.done()
            if g != "f %d %d" % (o["i"], f.n):
                raise Bad("traversal %d made %d visits, result %r" % (o["i"], f.n, g[:60]))
            break
        self.want("%d ok" % o["i"])

    def kshown(self, f, c, h, rest):
        for d in (f.req, f.may):
            for x, (ks, vs) in d.items():
                if x in f.seen and any(rest == ks + " " + v for v in vs):
                    return ks
        raise Bad("unknown key")

    def run(self):
        for o in self.case["ops"]:
            k, i, h = o["k"], o["i"], o["h"]
            fl = self.case["tabs"][h]["fl"]
            t = self.tabs[h]
            if "key" in o:
                ks = kshow(o["key"])
                c = canon(o["key"], fl)
            v = kshow(o["v"]) if "v" in o else None
            if k == "set":
                self.put(h, c, ks, v)
                self.want("%d ok" % i)
            elif k == "ref":
                self.want("%d %s" % (i, t[c][1] if c in t else "#f"))
            elif k in ("han", "cre"):
                if k == "cre" and c not in t:
                    self.put(h, c, ks, v)
                self.want("%d %s" % (i, "%s %s" % t[c] if c in t else "#f"))
            elif k == "hset":
                if c in t:
                    self.put(h, c, ks, v)
                self.want("%d ok" % i)
            elif k == "rem":
                self.drop(h, c)
                self.want("%d ok" % i)
            elif k == "size":
                g = self.take()
                if not g.startswith("%d #<hash-table %d/" % (i, len(t))):
                    raise Bad("%d associations present, %r printed" % (len(t), g[:60]))
            elif k in ("fill", "drain"):
                for x in range(o["a"], o["b"], o["by"]):
                    b = bulk_key(o["f"], x)
                    if k == "fill":
                        self.put(h, canon(b, fl), kshow(b), str(x))
                    else:
                        self.drop(h, canon(b, fl))
                self.want("%d ok" % i)
            elif k == "resume":
                if self.yk:
                    f = self.yk.pop(0)
                    self.drive(f)
                else:
                    self.want("%d ok" % i)
            elif k == "fold":
                f = Fold(o, t)
                self.folds.append(f)
                self.drive(f)
        self.want("the end")
        if self.p != len(self.lines):
            raise Bad("%r printed after the end" % self.lines[self.p][:60])


class H01(OpsProp):
    id = "H01"
    budget = 15000000
    cases = {"quick": 1600, "thorough": 300000}
    rule = ("each case is a history of insertions, lookups, handles, removals, bulk changes and traversals on one to three tables of 1 to 100 buckets, one of the three equivalences each, over keys of every type; traversal callbacks throw, escape, "
            "update, remove and insert, or suspend the traversal in a continuation that a later operation resumes; collections are injected. Non-trivial: a callback failed, left, suspended or removed, or collections were injected; distinct by event-log digest")
    assumptions = ["a key is not modified after insertion", "associations added or removed while a traversal is under way may or may not be visited, at most once"]

    def gen(self, rng, idx, tier):
        c = Gen(rng).case()
        c["knobs"] = gc_knobs(rng, False) or {"seed": rng.getrandbits(31)}
        return c

    def render(self, case):
        return render(case)

    def evaluate(self, ctx, case):
        r = ctx.run(self.spec(case))
        v, j = None, None
        if r.kind != "exit":
            v = "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace"))
        else:
            j = Judge(case, r.text().split("\n")[:-1])
            try:
                j.run()
            except Bad as e:
                v = "map: %s" % e
        return Outcome(v, not (j and j.live) and not r.stat("gcs"), r.digest)

    def shrinks(self, case):
        yield from OpsProp.shrinks(self, case)
        for n, o in enumerate(case["ops"]):
            for a, b in (("v", ["num", 1]), ("key", ["num", 1])):
                if a in o and o[a] != b:
                    yield dict(case, ops=case["ops"][:n] + [dict(o, **{a: b})] + case["ops"][n + 1:])


PROPS = [H01()]

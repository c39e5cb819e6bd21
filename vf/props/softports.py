"""P06 string and callback ports: callback histories against a reference model with one-shot coroutines."""
from vf import core
from vf.control import gc_knobs
from vf.engine import Prop, Outcome
from vf.props.outports import OpsProp, GenOps, show, disp, lit, esc as quoted
from vf.props.inports import Reader, Port, IOErr, cshow, value, text, gap

PRE = """(define (say a b) (begin (display a) (display " ") (display b) (newline)))
(define (put x) (if (eof-object? x) (display "EOF") (write x)))
(define esc 0)
(define (cur p) (if (output-port? p) (begin (set-current-output-port p) (current-output-port)) p))
(define (curi p) (if (input-port? p) (begin (set-current-input-port p) (current-input-port)) p))
(define yk '())
(define cnt (make-vector 10 0))
(define quiet-value 0)
(define (op id th) (say id (catch #t (lambda () (begin (call/cc (lambda (e) (begin (set! esc e) (th)))) 'ok)) (lambda a 'err))))
(define (opv id th) (begin (let ((v (catch #t (lambda () (let ((r (th))) (list 1 r))) (lambda a (list 0))))) (begin (display id) (display " ") (if (= (car v) 1) (put (car (cdr v))) (display "err")) (newline)))))
(define (act every mode id)
  (if (= every 0) 0
    (if (= 0 (remainder (vector-ref cnt id) every))
      (cond ((eq? mode 'throw) (throw 'cb id)) ((eq? mode 'esc) (esc 'x))
            ((eq? mode 'yield) (call/cc (lambda (k) (begin (set! yk (cons k yk)) (esc 'y)))))
            (else 0)) 0)))
(define (note id what x) (begin (display "s") (display id) (display what) (display " ") (write x) (newline)))
(define (cb id what x every mode when fwd)
  (begin (vector-set! cnt id (+ 1 (vector-ref cnt id)))
    (if (eq? when 'before) (act every mode id) 0)
    (if (fwd) (if (eq? what 'c) (write-char x (fwd)) (display x (fwd))) (note id what x))
    (if (eq? when 'after) (act every mode id) 0)))
(define (cb0 id what) (note id what 0))
(define (sink id hasstr every mode when fwd)
  (make-soft-port (vector (lambda (c) (cb id 'c c every mode when fwd)) (if hasstr (lambda (s) (cb id 's s every mode when fwd)) #f) (lambda () (cb0 id 'f)) #f (lambda () (cb0 id 'x))) "w"))
(define (resume) (let ((k (car yk))) (begin (set! yk (cdr yk)) (k 'go))))
(define (src v) ; v: list of characters or 'bang (a failure, once), shared position
  (make-soft-port (vector #f #f #f (lambda () (let ((l (vector-ref v 0))) (if (null? l) #f (let ((x (car l))) (begin (vector-set! v 0 (cdr l)) (if (eq? x 'bang) (throw 'src) x)))))) #f) "r"))
(define broken (make-vector 60 #f))
(define (opr id n th) (begin (let ((v (catch #t (lambda () (let ((r (th))) (list 1 r))) (lambda a (begin (vector-set! broken n #t) (list 0)))))) (begin (display id) (display " ") (if (= (car v) 1) (put (car (cdr v))) (display "err")) (newline)))))
(define (rd n p) (if (vector-ref broken n) (read-char p) (read p)))
(define (asrc v) ; v: queue, waiting continuation, main continuation, closed?
  (make-soft-port (vector #f #f #f (lambda () (anext v)) #f) "r"))
(define (anext v)
  (cond ((pair? (vector-ref v 0)) (let ((x (car (vector-ref v 0)))) (begin (vector-set! v 0 (cdr (vector-ref v 0))) x)))
        ((vector-ref v 3) #f)
        (else (begin (call/cc (lambda (k) (begin (vector-set! v 1 k) ((vector-ref v 2) 'blocked)))) (anext v)))))
(define (opa id v th) ; an operation that may block; its line is printed when it completes
  (begin (call/cc (lambda (m) (begin (vector-set! v 2 m)
    (let ((x (catch #t th (lambda a 'failed)))) (begin (display id) (display " ") (put x) (newline) ((vector-ref v 2) 'done)))))) (set! quiet-value 1)))
(define (feed v l fin)
  (begin (call/cc (lambda (m) (begin (vector-set! v 2 m) (vector-set! v 0 (append (vector-ref v 0) l)) (if fin (vector-set! v 3 #t) 0)
     (if (vector-ref v 1) (let ((k (vector-ref v 1))) (begin (vector-set! v 1 #f) (k 'go))) 0)))) (set! quiet-value 1)))
(define (nofwd) #f)
"""


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.g = GenOps(rng)

    def text(self):
        return "".join(self.r.choice("abcdef gh\n\xff\x80" + self.nul) for _ in range(self.r.choice([0, 1, 3, 8, 20])))

    def chars(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 3, 8, 20])):
            self.g.n += 1
            if r.random() < .15:
                # bytes above 127, as they are
                out.append('"%s"' % "".join(r.choice("ab \x80\xe9\xfe\xff\xff\0") for _ in range(r.randint(1, 5))))
            else:
                out.append(show(self.g.datum()) if r.random() < .7 else text(r, self.g))
            out.append(r.choice([" ", "\n", " ; c\n", gap(r, out[-1])]))
        return "".join(out)

    def case(self):
        r = self.r
        self.nul = "\0" if r.random() < .3 else ""
        sinks = []
        for i in range(1, r.choice([2, 4, 7])):
            if r.random() < .3:
                sinks.append({"id": i, "t": "str"})
            else:
                s = {"id": i, "t": "soft", "hasstr": r.random() < .6, "every": r.choice([0, 0, 1, 2, 3, 5]), "mode": r.choice(["throw", "esc", "yield", "yield"]), "when": r.choice(["before", "after"])}
                if i > 1 and r.random() < .5:
                    s["fwd"] = r.randint(1, i - 1)
                sinks.append(s)
        ops = []
        n = 0
        srcs, asrcs = {}, {}
        closed = set()
        for _ in range(r.choice([10, 25, 60])):
            n += 1
            self.g.n = n
            x = r.random()
            if x < .55 and sinks:
                s = r.choice(sinks)["id"]
                k = r.choice(["disp", "disp", "disp", "wr", "ch", "nl", "flush", "get", "resume", "resume", "multi"])
                if s in closed and k != "get" and (k not in ("disp", "wr", "ch", "nl") or r.random() < .7):
                    continue
                o = {"k": k, "i": n, "s": s}
                if k == "disp":
                    o["d"] = self.text() if r.random() < .8 else self.g.datum()
                elif k == "wr":
                    o["d"] = self.g.datum()
                elif k == "ch":
                    o["c"] = r.choice("abcXYZ\xff\x80\0")
                elif k == "multi":
                    o["d"] = [self.text() for _ in range(r.randint(2, 5))]
                    o["to"] = [r.choice([q["id"] for q in sinks if q["id"] not in closed]) for _ in o["d"]]
                elif k == "get":
                    if sinks[s - 1]["t"] != "str":
                        continue
                elif k == "flush" and sinks[s - 1]["t"] != "soft":
                    continue
                ops.append(o)
            elif x < .60 and sinks:
                s = r.choice(sinks)["id"]
                # closed only when nothing forwards to it any more
                if not any(q.get("fwd") == s and q["id"] not in closed for q in sinks) and r.random() < .3:
                    closed.add(s)
                    ops.append({"k": "close", "i": n, "s": s})
            elif x < .68:
                d = [self.text() for _ in range(r.randint(0, 4))]
                o = {"k": "cwos", "i": n, "d": d, "end": r.choice(["ret", "ret", "throw", "esc"])}
                if sinks and r.random() < .5:
                    q = [q["id"] for q in sinks if q["id"] not in closed and (q["t"] == "str" or not q["every"])]
                    # nested forwarding must not fail here: keep to sinks whose whole chain is plain
                    q = [a for a in q if self.plain(sinks, a)]
                    if q:
                        o["also"] = r.choice(q)
                ops.append(o)
            elif x < .85:
                p = r.randint(1, 2)
                if p not in srcs:
                    t = self.chars()
                    bang = sorted(r.sample(range(len(t) + 1), min(len(t), r.choice([0, 0, 1, 3]))))
                    srcs[p] = 1
                    o = {"k": "src", "i": n, "p": p, "d": t, "bang": bang}
                    if r.random() < .35:
                        # a string port, made open or handed to a procedure that leaves by itself, a throw or an escape
                        o.update(bang=[], str=r.choice(["open", "open", "ret", "throw", "esc"]))
                        if r.random() < .3:
                            o["d"] = "\0".join(t.split(" ", 2))
                    ops.append(o)
                else:
                    if r.random() < .05:
                        del srcs[p]
                        continue
                    ops.append({"k": r.choice(["rc", "rc", "pc", "pc", "rd", "rd", "rd", "rd", "rdy", "rdy", "shut"] if r.random() < .5 else ["rc", "pc", "rd"]), "i": n, "p": p})
            else:
                p = r.randint(1, 2)
                if p not in asrcs:
                    asrcs[p] = [self.chars(), None, False]
                    ops.append({"k": "asrc", "i": n, "p": p})
                st = asrcs[p]
                # one blocked reader at a time, feeds otherwise
                if r.random() < .5:
                    ops.append({"k": r.choice(["arc", "ard", "ard", "apc"]), "i": n, "p": p})
                else:
                    c = r.choice([1, 2, 5, 30])
                    ops.append({"k": "feed", "i": n, "p": p, "d": st[0][:c], "fin": 1 if len(st[0]) <= c else 0})
                    st[0] = st[0][c:]
        if r.random() < .3:
            # ports reached through the current-port registers
            for o in ops:
                if o["k"] in ("disp", "wr", "ch", "nl", "flush", "get", "rc", "pc", "rd", "rdy") and r.random() < .3:
                    o["cur"] = 1
        return {"sinks": sinks, "ops": ops}

    def plain(self, sinks, a):
        s = sinks[a - 1]
        if s["t"] == "str":
            return True
        if s["every"]:
            return False
        return self.plain(sinks, s["fwd"]) if "fwd" in s else True


def clit(c):
    return {" ": "#\\space", "\n": "#\\newline", "\0": "(integer->char 0)"}.get(c, "#\\" + c)


def clist(t, bang=()):
    out = []
    for i, c in enumerate(t):
        if i in bang:
            out.append("'bang")
        out.append(clit(c))
    if len(t) in bang:
        out.append("'bang")
    return "(list " + " ".join(out) + ")" if out else "'()"


def render(case):
    out = [PRE]
    for s in case["sinks"]:
        i = s["id"]
        if s["t"] == "str":
            out.append("(define k%d (open-output-string))" % i)
        else:
            fw = "(lambda () k%d)" % s["fwd"] if "fwd" in s else "nofwd"
            out.append("(define k%d (sink %d %s %d '%s '%s %s))" % (i, i, "#t" if s["hasstr"] else "#f", s["every"], s["mode"], s["when"], fw))
    for p in sorted({o["p"] for o in case["ops"] if o["k"] in ("src", "rc", "pc", "rd", "rdy", "shut")}):
        out.append("(define r%d #f)" % p)
    for p in sorted({o["p"] for o in case["ops"] if o["k"] in ("asrc", "arc", "apc", "ard", "feed")}):
        out.append("(define a%d (vector '() #f #f #f))\n(define b%d (asrc a%d))" % (p, p, p))
    n = 0
    rdn = {}
    for o in case["ops"]:
        k = o["k"]
        s = "k%d" % o.get("s", 0)
        if o.get("cur"):
            s = "(cur %s)" % s
        if k == "disp":
            b = "(display %s %s)" % (lit(o["d"]), s)
        elif k == "wr":
            b = "(write %s %s)" % (lit(o["d"]), s)
        elif k == "ch":
            b = "(write-char %s %s)" % (clit(o["c"]), s)
        elif k == "nl":
            b = "(newline %s)" % s
        elif k == "flush":
            b = "(force-output %s)" % s
        elif k == "close":
            b = "(close-output-port %s)" % s
        elif k == "multi":
            b = "(begin " + " ".join("(display %s k%d)" % (lit(d), t) for d, t in zip(o["d"], o["to"])) + ")"
        elif k == "resume":
            b = "(if (pair? yk) (resume) 0)"
        elif k == "get":
            out.append("(opv %d (lambda () (get-output-string %s)))" % (o["i"], s))
            continue
        elif k == "cwos":
            e = {"ret": "0", "throw": "(throw 'leave)", "esc": "(out \"escaped\")"}[o["end"]]
            also = ["(display %s k%d)" % (lit(d), o["also"]) for d in o["d"]] if "also" in o else [""] * len(o["d"])
            body = " ".join("(display %s p) %s" % (lit(d), a) for d, a in zip(o["d"], also))
            out.append("(opv %d (lambda () (call/cc (lambda (out) (call-with-output-string (lambda (p) (begin %s %s)))))))" % (o["i"], body, e))
            continue
        elif k == "src":
            n += 1
            rdn[o["p"]] = n % 60
            out.append("(vector-set! broken %d #f)" % (n % 60))
            st = "(list->string %s)" % clist(o["d"])
            if "str" not in o:
                out.append("(set! r%d (src (vector %s)))" % (o["p"], clist(o["d"], o["bang"])))
            elif o["str"] == "open":
                out.append("(set! r%d (open-input-string %s))" % (o["p"], st))
            else:
                e = {"ret": "'end", "throw": "(throw 'leave)", "esc": "(out 'end)"}[o["str"]]
                out.append("(op %d (lambda () (call/cc (lambda (out) (call-with-input-string %s (lambda (p) (begin (set! r%d p) (opr %d %d (lambda () (read-char p))) %s)))))))" % (o["i"], st, o["p"], o["i"], n % 60, e))
            continue
        elif k == "shut":
            out.append("(op %d (lambda () (close-input-port r%d)))" % (o["i"], o["p"]))
            continue
        elif k in ("rc", "pc", "rd", "rdy"):
            w = {"rc": "(read-char %s)", "pc": "(peek-char %s)", "rdy": "(char-ready? %s)", "rd": "(rd " + str(rdn.get(o["p"], 0)) + " %s)"}[k] % (("(curi r%d)" if o.get("cur") else "r%d") % o["p"])
            out.append("(opr %d %d (lambda () %s))" % (o["i"], rdn.get(o["p"], 0), w))
            continue
        elif k == "asrc":
            continue
        elif k in ("arc", "apc", "ard"):
            w = {"arc": "read-char", "apc": "peek-char", "ard": "read"}[k]
            out.append("(if (vector-ref a%d 1) (set! quiet-value 2) (opa %d a%d (lambda () (%s b%d))))" % (o["p"], o["i"], o["p"], w, o["p"]))
            continue
        elif k == "feed":
            out.append("(feed a%d %s %s)" % (o["p"], clist(o["d"]), "#t" if o["fin"] else "#f"))
            continue
        out.append("(op %d (lambda () %s))" % (o["i"], b))
    out.append("(say 'the 'end)")
    return "\n".join(out) + "\n"


class Throw(Exception):
    pass


class Esc(Exception):
    pass


class Model:
    def __init__(self, case):
        self.case = case
        self.sinks = {s["id"]: s for s in case["sinks"]}
        self.strs = {s["id"]: "" for s in case["sinks"] if s["t"] == "str"}
        self.cnt = {}
        self.out = []
        self.yk = []
        self.closed = set()

    def act(self, s, when):
        if s["every"] and s["when"] == when and self.cnt[s["id"]] % s["every"] == 0:
            if s["mode"] == "throw":
                raise Throw()
            if s["mode"] == "esc":
                raise Esc()
            yield 1

    def cb(self, s, what, x):
        i = s["id"]
        self.cnt[i] = self.cnt.get(i, 0) + 1
        yield from self.act(s, "before")
        if "fwd" in s:
            if what == "c":
                yield from self.char(s["fwd"], x)
            else:
                yield from self.string(s["fwd"], x)
        else:
            self.out.append("s%d%s %s" % (i, what, cshow(x) if what == "c" else quoted(x)))
        yield from self.act(s, "after")

    def char(self, i, c):
        s = self.sinks[i]
        if i in self.closed:
            raise Throw()
        if s["t"] == "str":
            self.strs[i] += c
            return
        yield from self.cb(s, "c", c)

    def string(self, i, t):
        s = self.sinks[i]
        if i in self.closed:
            raise Throw()
        if s["t"] == "str":
            self.strs[i] += t
            return
        if s["hasstr"]:
            yield from self.cb(s, "s", t)
        else:
            for c in t:
                if i in self.closed:
                    raise Throw()
                yield from self.cb(s, "c", c)

    def multi(self, o):
        for d, t in zip(o["d"], o["to"]):
            yield from self.string(t, d)

    def drive(self, g, owner, cur):
        try:
            next(g)
            self.yk.insert(0, (g, owner))
            self.out.append("%d ok" % cur)
        except StopIteration:
            self.out.append("%d ok" % owner)
        except Throw:
            self.out.append("%d err" % owner)
        except Esc:
            self.out.append("%d ok" % cur)

    def run(self):
        srcs, asr = {}, {}
        for o in self.case["ops"]:
            k, i = o["k"], o["i"]
            if k == "disp":
                self.drive(self.string(o["s"], disp(o["d"])), i, i)
            elif k == "wr":
                self.drive(self.string(o["s"], show(o["d"])), i, i)
            elif k in ("ch", "nl"):
                self.drive(self.char(o["s"], o.get("c", "\n")), i, i)
            elif k == "multi":
                self.drive(self.multi(o), i, i)
            elif k in ("flush", "close"):
                if self.sinks[o["s"]]["t"] == "soft" and (k == "flush" or o["s"] not in self.closed):
                    self.out.append("s%d%s 0" % (o["s"], "f" if k == "flush" else "x"))
                if k == "close":
                    self.closed.add(o["s"])
                self.out.append("%d ok" % i)
            elif k == "resume":
                if not self.yk:
                    self.out.append("%d ok" % i)
                else:
                    g, owner = self.yk.pop(0)
                    self.drive(g, owner, i)
            elif k == "get":
                self.out.append("%d %s" % (i, quoted(self.strs[o["s"]])))
            elif k == "cwos":
                for d in o["d"]:
                    if "also" in o:
                        for _ in self.string(o["also"], d):
                            pass
                self.out.append("%d %s" % (i, {"ret": quoted("".join(o["d"])), "throw": "err", "esc": '"escaped"'}[o["end"]]))
            elif k == "src":
                p = Port("<soft>", o["d"])
                srcs[o["p"]] = [p, list(o["bang"])]
                p.soft = "str" not in o
                if o.get("str", "open") != "open":
                    c = Reader(p, []).get()
                    self.out.append("%d %s" % (i, "EOF" if c is None else cshow(c)))
                    self.out.append("%d %s" % (i, "err" if o["str"] == "throw" else "ok"))
            elif k == "shut":
                if o["p"] in srcs:
                    srcs[o["p"]][0].closed = True
                self.out.append("%d %s" % (i, "ok" if o["p"] in srcs else "err"))
            elif k in ("rc", "pc", "rd", "rdy"):
                if o["p"] not in srcs:
                    self.out.append("%d err" % i)
                    continue
                p, bang = srcs[o["p"]]
                if k == "rdy":
                    # (a callback port need not know)
                    self.out.append(("rdy", i, None) if p.soft else "%d %s" % (i, "#t" if not p.closed and p.pos < len(p.t) else "#f"))
                    continue
                if p.closed:
                    self.out.append("%d EOF" % i)
                    continue
                rr = Reader(p, bang)
                try:
                    if k == "rd" and not p.broken:
                        t = rr.read()
                        v = "EOF" if t is None else value(t)
                    else:
                        c = rr.peek() if k == "pc" else rr.get()
                        v = "EOF" if c is None else cshow(c)
                except IOErr:
                    v = "err"
                if v == "err":
                    p.broken = True
                if v is None:
                    # text that starts inside a datum: the result is not modelled, nor whether it is an error
                    p.unsure = True
                    self.out.append(("any", i, p))
                else:
                    self.out.append("%d %s" % (i, v))
            elif k == "asrc":
                asr[o["p"]] = {"q": "", "pos": 0, "fin": False, "wait": None}
            elif k in ("arc", "apc", "ard"):
                a = asr.setdefault(o["p"], {"q": "", "pos": 0, "fin": False, "wait": None})
                if not a["wait"]:
                    a["wait"] = (k, i)
                    self.aread(a)
            elif k == "feed":
                a = asr.setdefault(o["p"], {"q": "", "pos": 0, "fin": False, "wait": None})
                a["q"] += o["d"]
                a["fin"] = a["fin"] or bool(o["fin"])
                self.aread(a)
        self.out.append("the end")

    def aread(self, a):
        """complete the waiting operation if its text has arrived"""
        if not a["wait"]:
            return
        k, i = a["wait"]
        p = Port("<a>", a["q"])
        p.pos = a["pos"]
        short = [False]

        class R(Reader):
            def peek(me):
                if me.p.pos >= len(me.p.t) and not a["fin"]:
                    raise IOErr()
                return Reader.peek(me)
        rr = R(p, [])
        try:
            if k == "ard":
                t = rr.read()
                v = "EOF" if t is None else value(t)
            else:
                c = rr.peek() if k == "apc" else rr.get()
                v = "EOF" if c is None else cshow(c)
        except IOErr:
            return
        a["pos"] = p.pos
        a["wait"] = None
        self.out.append(("any", i, None) if v is None else "%d %s" % (i, v))


def judge(case, r):
    if r.kind != "exit":
        return "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace"))
    m = Model(case)
    m.run()
    got = r.text().split("\n")[:-1]
    # an 'any' reading that failed switches its reader to characters, which the model did not know: stop comparing there
    for n, e in enumerate(m.out):
        if n >= len(got):
            return "trace: %r due, the program stopped" % (e,)
        g = got[n]
        if isinstance(e, tuple):
            if not g.startswith("%d " % e[1]):
                return "trace: result of operation %d due, %r printed" % (e[1], g[:60])
            if e[0] == "any" and (g.endswith(" err") or g.endswith(" failed")):
                return None
            continue
        if g != e:
            i = 0
            while i < min(len(g), len(e)) and g[i] == e[i]:
                i += 1
            return "trace: %r due, %r printed" % (e[max(0, i - 20):i + 40], g[max(0, i - 20):i + 40])
    if len(got) != len(m.out):
        return "trace: %r printed after the end" % got[len(m.out)][:60]
    return None


class P06(OpsProp):
    id = "P06"
    cases = {"quick": 6000, "thorough": 300000}
    rule = ("each case is a history of writes to string ports and callback ports (forwarding to one another, throwing, escaping, or suspending in a continuation that a later operation resumes) and of reads from callback ports "
            "(failing once at seeded positions, or blocking until a later operation feeds them), under injected collections; all callbacks and results must appear in the order of the reference model. "
            "Non-trivial: a callback failed, escaped, suspended or blocked, or collections were injected; distinct by event-log digest")
    assumptions = ["a suspended callback is resumed at most once", "data read from the middle of a datum are not compared"]

    def gen(self, rng, idx, tier):
        c = Gen(rng).case()
        c["knobs"] = gc_knobs(rng, False) or {"seed": rng.getrandbits(31)}
        return c

    def render(self, case):
        return render(case)

    def evaluate(self, ctx, case):
        r = ctx.run(self.spec(case))
        v = judge(case, r)
        live = any(s.get("every") for s in case["sinks"]) or any(o.get("bang") or o["k"] == "feed" for o in case["ops"])
        return Outcome(v, not live and not r.stat("gcs"), r.digest)

    def shrinks(self, case):
        yield from OpsProp.shrinks(self, case)
        for j, s in enumerate(case["sinks"]):
            if s.get("every"):
                yield dict(case, sinks=case["sinks"][:j] + [dict(s, every=0)] + case["sinks"][j + 1:])
            if "fwd" in s:
                yield dict(case, sinks=case["sinks"][:j] + [{k: v for k, v in s.items() if k != "fwd"}] + case["sinks"][j + 1:])


PROPS = [P06()]

"""P01 acknowledged output, P02 crash durability: histories of port operations against a journal."""
import json
from vf import core
from vf.control import gc_knobs
from vf.engine import Prop, Outcome

PRE = """(define (say a b) (begin (display a) (display " ") (display b) (newline)))
(define (op id th) (say id (catch #t (lambda () (begin (th) 'ok)) (lambda a 'err))))
(define dummy 0)
(define (cur p) (if (output-port? p) (begin (set-current-output-port p) (current-output-port)) p))
(define (quiet x) (set! dummy 1))
(define (gyield v) (call/cc (lambda (k) (begin (vector-set! v 1 k) ((vector-ref v 0) 'y)))))
(define (gbody id v f)
  (begin
    (op id (lambda () (call-with-output-file f (lambda (p)
      (do ((go 1)) ((eq? (vector-ref v 2) 'stop) 1)
        (begin (op (car (vector-ref v 2)) (lambda () (if (string? (cdr (vector-ref v 2))) (display (cdr (vector-ref v 2)) p) (write (cdr (vector-ref v 2)) p))))
               (gyield v)))))))
    (vector-set! v 3 1)
    ((vector-ref v 0) 'done)))
(define (gstep id v f msg) (call/cc (lambda (r) (begin (vector-set! v 0 r) (vector-set! v 2 msg)
   (cond ((vector-ref v 3) 'over) ((vector-ref v 1) ((vector-ref v 1) 'go)) (else (gbody id v f)))))))
(define (chain n th) (if (= n 0) (th) (dynamic-wind (lambda () 1) (lambda () (catch 'never (lambda () (chain (- n 1) th)) (lambda a 'no))) (lambda () 1))))
"""


def esc(s, written=True):
    t = s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")
    if written:
        t = "".join(c if " " <= c <= "~" else "\\%03o" % ord(c) for c in t)
    return '"' + t + '"'


def show(d, written=True):
    """written form of a simple datum"""
    if isinstance(d, str):
        return esc(d, written)
    if isinstance(d, int):
        return str(d)
    if isinstance(d, dict):
        return d["sym"]
    return "(" + " ".join(show(x, written) for x in d) + ")"


def disp(d):
    if isinstance(d, str):
        return d
    return show(d)  # (strings inside lists are shown with quotes by display too)


def lit(d):
    """source text of a simple datum"""
    if isinstance(d, str) and "\0" in d:
        # (a source text cannot hold this character)
        return "(string-append " + " (string (integer->char 0)) ".join(esc(x, False) for x in d.split("\0")) + ")"
    t = show(d, False)
    return t if isinstance(d, (str, int)) else "'" + t


class GenOps:
    def __init__(self, rng, crash=False):
        self.r = rng
        self.crash = crash
        self.n = 0

    def id(self):
        self.n += 1
        return self.n

    def text(self):
        r = self.r
        w = r.random()
        tag = "<%d>" % self.n
        if w < .1:
            return tag + "".join(r.choice("ab\0") for _ in range(r.randint(1, 6))) + r.choice(["", "", "z" * 90])
        if w < .6:
            return tag + "".join(r.choice("abcdef gh\n\xff\x80") for _ in range(r.randint(0, 12)))
        if w < .85:
            return tag + r.choice("xyz") * r.choice([30, 100, 500])
        if w < .97:
            return tag + (r.choice("pqrs") + "0123456789") * r.choice([90, 400, 800])
        return tag + "é\\\"" * 3

    def datum(self, d=0):
        r = self.r
        x = r.random()
        if d > 2 or x < .35:
            return r.randint(-999, 99999)
        if x < .5:
            return {"sym": r.choice(["foo", "bar-baz", "q?"])}
        if x < .65:
            return "s%d" % self.n
        return [self.datum(d + 1) for _ in range(r.randint(1, 4))]

    def ops(self, nports, nops):
        r = self.r
        out = []
        free = ["/o%d" % i for i in range(1, 40)]
        r.shuffle(free)
        ports = {}   # slot -> file
        closedf = []
        gens = {}
        shut = {}  # slot -> file whose closed port the variable still holds
        for _ in range(nops):
            x = r.random()
            slot = r.randint(1, nports)
            if slot not in ports and slot in shut and x < .06:
                k = r.choice(["disp", "wr", "ch", "nl"])
                o = {"k": k, "i": self.id(), "p": slot, "f": shut[slot]}
                if k in ("disp", "wr"):
                    o["d"] = self.datum()
                elif k == "ch":
                    o["c"] = "c"
                out.append(o)
                continue
            if slot not in ports and x < .7:
                if closedf and r.random() < .2:
                    f = closedf.pop(r.randrange(len(closedf)))
                else:
                    f = free.pop() if free else None
                if f is None:
                    continue
                ports[slot] = f
                shut.pop(slot, None)
                out.append({"k": "open", "i": self.id(), "p": slot, "f": f})
                continue
            if slot in ports and x < .62:
                k = r.choice(["disp", "disp", "wr", "ch", "nl", "flush", "disp", "multi"])
                o = {"k": k, "i": self.id(), "p": slot, "f": ports[slot]}
                if k == "disp":
                    o["d"] = self.text() if r.random() < .8 else self.datum()
                elif k == "wr":
                    o["d"] = self.datum()
                elif k == "ch":
                    o["c"] = r.choice("abcXYZ019\xff\x80\0")
                elif k == "multi":
                    o["n"] = r.choice([3, 20, 120])
                    o["c"] = r.choice("mnuv")
                if r.random() < .15:
                    o["deep"] = r.choice([1, 3, 8])
                if r.random() < .06:
                    o["cur"] = 1
                out.append(o)
                continue
            if slot in ports and x < .78:
                out.append({"k": "close", "i": self.id(), "p": slot, "f": ports[slot]})
                shut[slot] = ports[slot]
                closedf.append(ports.pop(slot))
                continue
            if slot in ports and x < .81:
                out.append({"k": "drop", "i": self.id(), "p": slot, "f": ports.pop(slot)})
                continue
            if x < .9 and free:
                k = r.choice(["cwof", "cwof", "cwofesc", "cwofthrow"])
                f = free.pop()
                ch = []
                for _ in range(r.randint(0, 4)):
                    c = self.id()
                    ch.append([c, self.text() if r.random() < .6 else self.datum()])
                o = {"k": k, "i": self.id(), "f": f, "ch": ch}
                if k == "cwof" and r.random() < .4:
                    o["ret"] = r.choice(["p", "p", "(list p)", "#f", "(quote ())"])
                out.append(o)
                continue
            g = r.randint(1, 2)
            if g not in gens:
                if not free:
                    continue
                gens[g] = [free.pop(), self.id()]
                out.append({"k": "gnew", "g": g, "f": gens[g][0], "i": gens[g][1]})
            if r.random() < .2:
                out.append({"k": "gstop", "g": g, "f": gens[g][0], "i": gens[g][1]})
                del gens[g]
            else:
                i = self.id()
                out.append({"k": "gput", "g": g, "f": gens[g][0], "i": gens[g][1], "j": i, "d": self.text() if r.random() < .6 else self.datum()})
        return out


def render(ops):
    out = [PRE]
    slots = sorted({o["p"] for o in ops if "p" in o})
    for s in slots:
        out.append("(define p%d #f)" % s)
    for g in sorted({o["g"] for o in ops if "g" in o}):
        out.append("(define g%d #f)" % g)
    for o in ops:
        k = o["k"]
        p = "p%d" % o.get("p", 0)
        if o.get("cur") and k in ("disp", "wr", "ch", "nl", "flush", "multi", "close"):
            p = "(cur %s)" % p
        if k == "open":
            b = '(set! %s (open-output-file "%s"))' % (p, o["f"])
        elif k == "disp":
            b = "(display %s %s)" % (lit(o["d"]), p)
        elif k == "wr":
            b = "(write %s %s)" % (lit(o["d"]), p)
        elif k == "ch":
            b = "(write-char %s %s)" % ("(integer->char 0)" if o["c"] == "\0" else "#\\" + o["c"], p)
        elif k == "nl":
            b = "(newline %s)" % p
        elif k == "flush":
            b = "(force-output %s)" % p
        elif k == "multi":
            b = "(do ((i 0 (+ i 1))) ((= i %d)) (write-char #\\%s %s))" % (o["n"], o["c"], p)
        elif k == "close":
            b = "(close-output-port %s)" % p
        elif k == "drop":
            out.append("(set! %s #f)" % p)
            continue
        elif k in ("cwof", "cwofesc", "cwofthrow"):
            body = " ".join("(op %d (lambda () (%s %s p)))" % (c, "display" if isinstance(d, str) else "write", lit(d)) for c, d in o["ch"])
            if k == "cwofesc":
                b = '(call/cc (lambda (k) (call-with-output-file "%s" (lambda (p) (begin %s (k 1))))))' % (o["f"], body)
            elif k == "cwofthrow":
                b = '(catch \'leave (lambda () (call-with-output-file "%s" (lambda (p) (begin %s (throw \'leave))))) (lambda a 1))' % (o["f"], body)
            else:
                b = '(call-with-output-file "%s" (lambda (p) (begin %s %s)))' % (o["f"], body, o.get("ret", "1"))
        elif k == "gnew":
            out.append("(set! g%d (make-vector 4 #f))" % o["g"])
            continue
        elif k == "gput":
            out.append('(quiet (gstep %d g%d "%s" (cons %d %s)))' % (o["i"], o["g"], o["f"], o["j"], lit(o["d"])))
            continue
        elif k == "gstop":
            out.append("(quiet (gstep %d g%d \"%s\" 'stop))" % (o["i"], o["g"], o["f"]))
            continue
        if o.get("deep"):
            b = "(chain %d (lambda () %s))" % (o["deep"], b)
        out.append("(op %d (lambda () %s))" % (o["i"], b))
    out.append("(say 'the 'end)")
    return "\n".join(out) + "\n"


class Journal:
    """what the program wrote to one opening of a file, in order"""

    def __init__(self, f):
        self.f, self.parts, self.acked, self.flushed = f, [], True, 0
        self.closed = False       # a close was attempted
        self.ops = []             # (id, ok)
        self.n = 0

    def add(self, text):
        b = text.encode("latin-1")
        self.parts.append(b)
        self.n += len(b)

    def data(self):
        return b"".join(self.parts)


class Walk:
    """Replays the operation list over the acknowledgements seen on stdout."""

    def __init__(self, ops, res):
        self.res = res
        self.err = None
        self.cut = False
        self.inflight = None   # journal of the operation cut by a crash
        self.journals = {}     # file -> [Journal]
        self.acks = []         # (id, result, index of first record after)
        cur = b""
        self.faults_at = []    # (kind, site, path, number of complete lines before)
        for t, p in res.recs:
            if t == "O":
                cur += p
                while b"\n" in cur:
                    l, cur = cur.split(b"\n", 1)
                    l = l.decode("utf8", "replace")
                    if l.strip():
                        self.acks.append(l)
            elif t == "F":
                w = p.decode().split(" ", 4)
                self.faults_at.append((w[2], w[1], w[4] if len(w) > 4 else "", len(self.acks)))
        self.pos = 0
        self.tail = cur.decode("utf8", "replace")
        try:
            self.walk(ops)
        except StopIteration:
            self.cut = True
        except ValueError as e:
            self.err = str(e)

    def ack(self, i, j=None):
        """result of operation i; j is the journal it belongs to"""
        if self.pos >= len(self.acks):
            self.inflight = j
            raise StopIteration()
        l = self.acks[self.pos]
        w = l.split(" ")
        if len(w) != 2 or w[0] != str(i) or w[1] not in ("ok", "err"):
            raise ValueError("trace: operation %s expected, the program printed %r" % (i, l[:80]))
        self.pos += 1
        ok = w[1] == "ok"
        if j is not None and not j.closed:
            j.ops.append((i, ok, self.pos - 1))
            if not ok:
                j.acked = False
        return ok

    def open(self, f):
        j = Journal(f)
        self.journals.setdefault(f, []).append(j)
        return j

    def walk(self, ops):
        ports, gens = {}, {}
        for o in ops:
            k = o["k"]
            if k == "open":
                j = self.open(o["f"])
                if self.ack(o["i"], j):
                    ports[o["p"]] = j
                else:
                    j.noopen = True
                    ports[o["p"]] = None if ports.get(o["p"]) is None else ports[o["p"]]
                    self.journals[o["f"]].pop()
                    if not self.fault_in("open", o["f"], self.pos - 1):
                        raise ValueError("refused: operation %d reported an error and nothing was wrong" % o["i"])
                continue
            if k in ("disp", "wr", "ch", "nl", "flush", "multi", "close"):
                j = ports.get(o["p"])
                if j is None:  # the variable still holds #f: the operation is an error
                    if self.ack(o["i"]):
                        raise ValueError("lost: operation %d without a port reported success" % o["i"])
                    continue
                t = {"disp": lambda: disp(o["d"]), "wr": lambda: show(o["d"]), "ch": lambda: o["c"], "nl": lambda: "\n", "multi": lambda: o["c"] * o["n"]}.get(k)
                if t and j.closed:
                    if self.ack(o["i"]):
                        raise ValueError("lost: operation %d wrote to a closed port and reported success" % o["i"])
                    continue
                if t:
                    j.add(t())
                ok = self.ack(o["i"], j)
                if k in ("flush", "close") and ok and not j.closed:
                    j.flushed = j.n
                if k == "close":
                    j.closed = True
                continue
            if k == "drop":
                ports[o["p"]] = None
                continue
            if k in ("cwof", "cwofesc", "cwofthrow"):
                j = self.open(o["f"])
                if self.fault_in("open", o["f"], self.pos):
                    self.journals[o["f"]].pop()
                    if self.ack(o["i"], None):
                        raise ValueError("lost: operation %d reported success although the file could not be opened" % o["i"])
                    continue
                for c, d in o["ch"]:
                    j.add(disp(d) if isinstance(d, str) else show(d))
                    self.ack(c, j)
                ok = self.ack(o["i"], j)
                if k == "cwof":
                    if ok:
                        j.flushed = j.n
                    j.closed = True
                continue
            if k == "gnew":
                gens[o["g"]] = None
                continue
            if k in ("gput", "gstop"):
                st = gens.get(o["g"])
                if st == "over":
                    continue
                if st is None:
                    j = self.open(o["f"])
                    if self.fault_in("open", o["f"], self.pos):
                        self.journals[o["f"]].pop()
                        gens[o["g"]] = "over"
                        if self.ack(o["i"]):
                            raise ValueError("lost: generator %d reported success although the file could not be opened" % o["i"])
                        continue
                    gens[o["g"]] = st = j
                if k == "gput":
                    st.add(disp(o["d"]) if isinstance(o["d"], str) else show(o["d"]))
                    self.ack(o["j"], st)
                else:
                    if self.ack(o["i"], st):
                        st.flushed = st.n
                    st.closed = True
                    gens[o["g"]] = "over"
        if self.pos >= len(self.acks):
            raise StopIteration()
        if self.acks[self.pos] != "the end" or self.pos + 1 != len(self.acks) or self.tail:
            raise ValueError("trace: end expected, the program printed %r" % ("\n".join(self.acks[self.pos:])[:80] + self.tail[:20]))

    def fault_in(self, site, path, pos):
        return any(s == site and p == path and n == pos for _, s, p, n in self.faults_at)

    def faults_of(self, j, sites=("write", "close")):
        """faults on the journal's file between its opening and its last operation"""
        if not j.ops:
            return []
        lo, hi = j.ops[0][2], j.ops[-1][2]
        return [(k, s, n) for k, s, p, n in self.faults_at if p == j.f and s in sites and lo <= n <= hi]


def subseq(a, b):
    """a is b with pieces left out"""
    it = iter(b)
    return all(c in it for c in a)


def p01_judge(ops, r):
    if r.kind != "exit":
        return "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace"))
    w = Walk(ops, r)
    if w.err:
        return w.err
    if w.cut:
        return "trace: the program stopped before operation acknowledgement %d" % w.pos
    for f, js in w.journals.items():
        for x, j in enumerate(js):
            fl = w.faults_of(j)
            if j.acked and fl and j.closed:
                return "unreported: %s: %s:%s at acknowledgement %d, yet every operation on the port reported success" % (f, fl[0][1], fl[0][0], fl[0][2])
            for i, ok, n in j.ops:
                if not ok and not any(m <= n for _, _, m in fl):
                    return "refused: operation %d on %s reported an error and nothing was wrong" % (i, f)
        if not js:
            continue
        j = js[-1]
        got = r.files.get(f)
        if got is None:
            return "missing: %s was opened and does not exist" % f
        exp = j.data()
        anyfault = any(p == f and s in ("write", "close") for _, s, p, n in w.faults_at if n >= (j.ops[0][2] if j.ops else 0))
        if j.acked and (j.closed or not anyfault):
            if got != exp:
                return "content: %s holds %d bytes %r..., the acknowledged text has %d bytes %r..." % ((f,) + where(got, exp))
        elif not subseq(got, exp):
            return "content: %s holds text that was not written in that order" % f
        elif j.acked and not got.startswith(exp[:j.flushed]):
            return "content: %s lacks text flushed without an error" % f
    return None


def where(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    s = max(0, i - 10)
    return len(a), a[s:i + 20].decode("utf8", "replace"), len(b), b[s:i + 20].decode("utf8", "replace")


def p02_judge(ops, r):
    if r.kind not in ("exit", "crash"):
        return "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace"))
    w = Walk(ops, r)
    if w.err:
        return w.err
    if r.kind == "exit" and w.cut:
        return "trace: the program stopped early"
    for f, js in w.journals.items():
        if not js:
            continue
        j = js[-1]
        got = r.files.get(f)
        if got is None or (j is w.inflight and not j.ops and len(js) > 1):
            if j.ops and got is None:
                return "missing: %s was opened and does not exist" % f
            continue
        exp = j.data()
        if len(js) > 1 and not j.ops:
            continue
        if not exp.startswith(got):
            return "content: %s holds %d bytes %r..., not a prefix of the %d bytes written %r..." % ((f,) + where(got, exp))
        if len(got) < j.flushed:
            return "durability: %s holds %d bytes, %d had been flushed before the crash" % (f, len(got), j.flushed)
        if r.kind == "exit" and got != exp:
            return "content: %s holds %d of %d bytes after a normal exit" % (f, len(got), len(exp))
    return None


class OpsProp(Prop):
    chunk = 12
    assumptions = ["acknowledgements are printed to an unbuffered standard output that does not fail"]
    budget = 3000000

    def spec(self, case):
        k = dict({"cpu_s": 40, "budget": self.budget}, **case["knobs"])
        s = {"files": {"/p.scm": self.render(case)}, "args": ["pscm", "/p.scm"], "knobs": k}
        if "plan" in case:
            s["plan"] = case["plan"]
        if case.get("gcplan") is not None:
            s["gcplan"] = case["gcplan"]
        return s

    def render(self, case):
        return render(case["ops"])

    def concretise(self, ctx, case):
        s = self.spec(case)
        r = ctx.run(s)
        e = core.explicit(s, r)
        c = dict(case, knobs={k: v for k, v in e["knobs"].items() if not k.startswith(("p_", "gc_rate", "gc_every", "gc_start", "gc_burst", "io_max", "io_skip")) and k not in ("cpu_s", "budget")})
        if e["knobs"].get("io_mode") == 2:
            c["plan"] = {str(k): list(v) for k, v in e["plan"].items()}
        if e["knobs"].get("gc_mode") == 2:
            c["gcplan"] = e.get("gcplan", [])
        return c

    def shrinks(self, case):
        ops = case["ops"]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                if size < n:
                    yield dict(case, ops=ops[:i] + ops[i + size:])
            size //= 2
        if case.get("plan"):
            ks = sorted(case["plan"], key=int)
            if len(ks) > 1:
                yield dict(case, plan={k: case["plan"][k] for k in ks[:len(ks) // 2]})
                yield dict(case, plan={k: case["plan"][k] for k in ks[len(ks) // 2:]})
                for k in ks:
                    yield dict(case, plan={x: v for x, v in case["plan"].items() if x != k})
            # deleting operations shifts the I/O index: let the fault move to earlier operations
            for k in ks:
                for d in (32, 16, 8, 4, 2, 1):
                    if int(k) > d and str(int(k) - d) not in case["plan"]:
                        p = {x: v for x, v in case["plan"].items() if x != k}
                        p[str(int(k) - d)] = case["plan"][k]
                        yield dict(case, plan=p, ops=ops[:-1]) if n > 1 else dict(case, plan=p)
        if case.get("gcplan"):
            g = case["gcplan"]
            yield dict(case, gcplan=[])
            yield dict(case, gcplan=g[:len(g) // 2])
            yield dict(case, gcplan=g[len(g) // 2:])
            if len(g) < 10:
                for i in range(len(g)):
                    yield dict(case, gcplan=g[:i] + g[i + 1:])
        for i, o in enumerate(ops):
            if "deep" in o:
                yield dict(case, ops=ops[:i] + [{k: v for k, v in o.items() if k != "deep"}] + ops[i + 1:])
            if isinstance(o.get("d"), str) and len(o["d"]) > 3:
                yield dict(case, ops=ops[:i] + [dict(o, d=o["d"][:len(o["d"]) // 2])] + ops[i + 1:])
            if o.get("ch"):
                yield dict(case, ops=ops[:i] + [dict(o, ch=o["ch"][1:])] + ops[i + 1:])


class P01(OpsProp):
    id = "P01"
    cases = {"quick": 7000, "thorough": 300000}
    rule = ("each case is a history of opens, writes, flushes, closes, escapes out of and re-entries into writing procedures over several file ports, acknowledged one by one on standard output, run under injected "
            "open, write (EIO, ENOSPC, torn) and close faults, buffer sizes and collections; every acknowledged port must hold exactly its text, every fault on a closed port must be reported by an operation on it, "
            "no operation may fail without a fault. Non-trivial: a fault was injected into a write or close; distinct by event-log digest")

    def gen(self, rng, idx, tier):
        g = GenOps(rng)
        ops = g.ops(rng.choice([1, 2, 4]), rng.choice([8, 20, 40, 80]))
        k = {"seed": rng.getrandbits(31), "bufsize": rng.choice([0, 0, 1, 2, 7, 64, 300])}
        if rng.random() < .85:
            k["io_mode"] = 1
            lvl = rng.choice([10, 50, 200])
            for f in ("write_EIO", "write_ENOSPC", "write_TORN", "close_EIO", "open_EMFILE", "open_EACCES"):
                if rng.random() < .5:
                    k["p_" + f] = rng.choice([lvl // 5, lvl])
            if rng.random() < .3:
                k["io_max"] = rng.choice([1, 2])
        if rng.random() < .15:
            k["max_fd"] = rng.choice([1, 2, 4])
        if rng.random() < .4:
            k.update(gc_knobs(rng, False))
        return {"ops": ops, "knobs": k}

    def evaluate(self, ctx, case):
        r = ctx.run(self.spec(case))
        v = p01_judge(case["ops"], r)
        return Outcome(v, not any(" write " in f or " close " in f for f in r.faults), r.digest)


class P02(OpsProp):
    id = "P02"
    level = "fault_enumeration"
    cases = {"quick": 5000, "thorough": 200000}
    rule = ("each case is a history of port operations as in P01, killed at an I/O operation (opening, a write torn at any byte, closing): half the cases kill at a seeded point, half enumerate every I/O operation of one short history; "
            "every surviving file must be a prefix of what was written and contain all text flushed or closed without an error. Non-trivial: the process was killed while a file held or had been promised data; distinct by event-log digest")

    def gen(self, rng, idx, tier):
        g = GenOps(rng, crash=True)
        every = rng.random() < .1
        ops = g.ops(rng.choice([1, 2, 4]), rng.choice([6, 10]) if every else rng.choice([8, 20, 40, 80]))
        k = {"seed": rng.getrandbits(31), "bufsize": rng.choice([0, 0, 1, 2, 7, 64, 300]), "io_mode": 1}
        if rng.random() < .4:
            k.update(gc_knobs(rng, False))
        if every:
            k["io_mode"] = 2
            return {"ops": ops, "knobs": k, "every": 1, "tears": [rng.choice([0, 1, rng.randint(0, 63), rng.randint(0, 65535)]) for _ in range(2)], "plan": {}}
        lvl = rng.choice([5, 20, 80, 250])
        for f in ("write_CRASH", "open_CRASH", "close_CRASH"):
            if f == "write_CRASH" or rng.random() < .5:
                k["p_" + f] = lvl
        return {"ops": ops, "knobs": k}

    def evaluate(self, ctx, case):
        if case.get("every"):
            base = ctx.run(self.spec(dict(case, knobs=dict(case["knobs"], io_log=1))))
            v = p02_judge(case["ops"], base)
            dg = [base.digest]
            points = [int(x.split(" ")[0]) for x in base.ops]
            n = len(points)
            pr = {}
            if not v:
                for i in points[:400]:
                    for t in case["tears"]:
                        r = ctx.run(self.spec(dict(case, plan={str(i): ["CRASH", t]})))
                        dg.append(r.digest)
                        if r.kind == "crash":
                            pr["crash-points"] = pr.get("crash-points", 0) + 1
                        v = p02_judge(case["ops"], r)
                        if v:
                            case["_at"] = [i, t]
                            break
                    if v:
                        break
            return Outcome(v, n < 4, core.hashlib.sha256("".join(dg).encode()).hexdigest()[:16], pr)
        r = ctx.run(self.spec(case))
        v = p02_judge(case["ops"], r)
        return Outcome(v, r.kind != "crash", r.digest, {"crash-points": 1 if r.kind == "crash" else 0})

    def concretise(self, ctx, case):
        if case.get("every"):
            i, t = case.pop("_at", [0, 0])
            return {"ops": case["ops"], "knobs": {k: v for k, v in case["knobs"].items()}, "plan": {str(i): ["CRASH", t]} if i else {}}
        return OpsProp.concretise(self, ctx, case)

    def shrinks(self, case):
        case.pop("_at", None)
        return OpsProp.shrinks(self, case)


PROPS = [P01(), P02()]

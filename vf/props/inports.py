"""P03 input ports against a reference reader over the device contents; P04 loading source files."""
import re

from vf import core, model
from vf.control import gc_knobs
from vf.engine import Prop, Outcome
from vf.props.outports import OpsProp, GenOps, show, lit

WS = " \t\n\r\v\f"

PRE = """(define (say a b) (begin (display a) (display " ") (display b) (newline)))
(define (put x) (if (eof-object? x) (display "EOF") (write x)))
(define stdin0 (current-input-port))
(define (curi p) (if (input-port? p) (begin (set-current-input-port p) (current-input-port)) p))
(define broken (make-vector 60 #f))
(define (op id n th) (begin (display id) (display " ") (catch #t (lambda () (begin (put (th)) 1)) (lambda a (begin (vector-set! broken n #t) (display "err")))) (newline)))
(define (rd n p) (if (vector-ref broken n) (read-char p) (read p)))
(define dummy 0)
(define (slurp p) (do ((c (read-char p) (read-char p)) (l '() (cons c l))) ((eof-object? c) (list->string (reverse l)))))
(define (readall n p) (do ((x (rd n p) (rd n p)) (l '() (cons x l))) ((or (vector-ref broken n) (eof-object? x)) (reverse l))))
(define (skipn n p k) (do ((i 0 (+ i 1)) (c 'none (read-char p))) ((= i k) c)))
(define (chain n th) (if (= n 0) (th) (dynamic-wind (lambda () 1) (lambda () (catch 'never (lambda () (chain (- n 1) th)) (lambda a 'no))) (lambda () 1))))
"""


def text(r, g, d=0):
    """a datum as a person may write it: comments and line ends inside, character literals, quotes, no more blanks than needed"""
    x = r.random()
    if d > 2 or x < .45:
        return r.choice([show(g.datum(3)), show(g.datum(3)), "#\\" + r.choice("ab9();\"'"), r.choice(["#t", "#f"]), '"%s"' % r.choice(["", "s (", ";)", "z) z("])])
    if x < .55:
        return "'" + r.choice(["", "", " ", "\n", ";'\n"]) + text(r, g, d + 1)
    out = r.choice(["(", "(", "(", "#("]) + r.choice(["", "", " ", "; (\n"])
    for i in range(r.randint(1, 4)):
        if i:
            out += gap(r, out)
        out += text(r, g, d + 1)
    return out + r.choice(["", "", " ", "\n", " ; )\n"]) + ")"


def gap(r, before=""):
    """what may stand between two data"""
    if before[-1:] in ')"' and not before[-2:-1] == "\\" and r.random() < .3:
        return ""
    return r.choice([" ", " ", "\n", " ;)\n", ";(\"\n", "\t", "  "])


class GenIn:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.g = GenOps(rng)

    def chars(self):
        r = self.r
        n = r.choice([0, 1, 5, 30, 30, 200, 200, 1000, r.choice([1000, 4200])])
        al = r.choice(["ab", "a\xff\xfe\x80\xe9 \n", "ab\xff", "ab\0", "abc \n", "abcdefgh()\";#' \n\t", "xyz0123456789 "])
        return "".join(r.choice(al) for _ in range(n))

    def data(self):
        """text made of complete data, whitespace and comments"""
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 3, 10, 40])):
            self.g.n += 1
            d = self.g.datum()
            if r.random() < .08:
                d = [self.g.datum() for _ in range(r.choice([50, 100]))]
            if r.random() < .05:
                d = "z" * r.choice([10, 4094, 4095, 4096, 5000])
            out.append(text(r, self.g) if r.random() < .4 and not isinstance(d, str) else show(d) if r.random() > .04 else '"%s"' % "".join(r.choice("ab \0\xff\n") for _ in range(r.randint(1, 6))))
            out.append(r.choice([" ", "\n", "  ", "\n\n", " ; note\n", "\t", " ;(\"\n ", gap(r, out[-1])]))
            if sum(map(len, out)) > 5000:
                break
        if r.random() < .3 and out:
            out.pop()
        return "".join(out)

    def case_ops(self, tier):
        r = self.r
        files = {}
        ops = []
        slots = {}
        for i in range(r.choice([1, 2, 3])):
            files["/in%d" % i] = self.data() if r.random() < .55 else self.chars()
        isd = {f: all(True for _ in [0]) for f in files}
        names = sorted(files)
        stdin = (self.data() if r.random() < .5 else self.chars()) if r.random() < .3 else ""
        nid = 0
        for _ in range(r.choice([8, 20, 50])):
            nid += 1
            s = r.randint(0, 2)
            x = r.random()
            if s not in slots and x < .8:
                y = r.random()
                if stdin and y < .2 and "<stdin>" not in slots.values():
                    slots[s] = "<stdin>"
                    ops.append({"k": "stdin", "i": nid, "p": s})
                elif y < .45:
                    t = self.data() if r.random() < .5 else self.chars()
                    slots[s] = "<string>"
                    ops.append({"k": "strin", "i": nid, "p": s, "d": t})
                else:
                    slots[s] = r.choice(names)
                    ops.append({"k": "open", "i": nid, "p": s, "f": slots[s]})
                continue
            if s in slots and x < .8:
                k = r.choice(["rc", "rc", "pc", "rd", "rd", "skip", "slurp", "readall", "ready"])
                if k in ("slurp", "readall") and r.random() < .6:
                    k = "rc"
                o = {"k": k, "i": nid, "p": s}
                if k == "skip":
                    o["n"] = r.choice([2, 10, 100, 4096])
                if r.random() < .15:
                    o["deep"] = r.choice([1, 3, 8])
                if r.random() < .08:
                    o["cur"] = 1
                ops.append(o)
                continue
            if s in slots and x < .87 and slots[s] != "<stdin>":
                ops.append({"k": "close", "i": nid, "p": s})
                continue
            if s in slots and x < .93:
                del slots[s]
                continue
            ops.append({"k": r.choice(["cwifchar", "cwifread", "cwifall"]), "i": nid, "f": r.choice(names)})
        return files, ops, stdin


def render(case):
    out = [PRE]
    ops = case["ops"]
    slots = sorted({o["p"] for o in ops if "p" in o})
    for s in slots:
        out.append("(define p%d #f)" % s)
    reader = 0
    cur = {}
    for o in ops:
        k = o["k"]
        p = "p%d" % o.get("p", 0)
        if k in ("open", "strin", "stdin"):
            reader += 1
            cur[o["p"]] = reader
        n = cur.get(o.get("p"), 0)
        if o.get("cur") and k in ("rc", "pc", "ready", "rd", "skip", "slurp", "readall", "close"):
            p = "(curi %s)" % p
        if k == "open":
            b = '(begin (set! %s (open-input-file "%s")) 0)' % (p, o["f"])
        elif k == "strin":
            b = "(begin (set! %s (open-input-string %s)) 0)" % (p, lit(o["d"]))
        elif k == "stdin":
            b = "(begin (set! %s stdin0) 0)" % p
        elif k == "rc":
            b = "(read-char %s)" % p
        elif k == "pc":
            b = "(peek-char %s)" % p
        elif k == "ready":
            b = "(char-ready? %s)" % p
        elif k == "rd":
            b = "(rd %d %s)" % (n % 60, p)
        elif k == "skip":
            b = "(skipn %d %s %d)" % (n % 60, p, o["n"])
        elif k == "slurp":
            b = "(slurp %s)" % p
        elif k == "readall":
            b = "(readall %d %s)" % (n % 60, p)
        elif k == "close":
            b = "(begin (close-input-port %s) 0)" % p
        else:
            th = {"cwifchar": "read-char", "cwifread": "read", "cwifall": "slurp"}[k]
            b = '(call-with-input-file "%s" (lambda (p) (%s p)))' % (o["f"], th)
        if o.get("deep"):
            b = "(chain %d (lambda () %s))" % (o["deep"], b)
        # a port variable that still holds #f, or an operation number reused after the table wrapped
        if k in ("open", "strin", "stdin"):
            out.append("(vector-set! broken %d #f)" % (n % 60))
        out.append("(op %d %d (lambda () %s))" % (o["i"], n % 60, b))
    out.append("(say 'the 'end)")
    return "\n".join(out) + "\n"


class Bad(Exception):
    pass


class IOErr(Exception):
    pass


class Port:
    def __init__(self, path, text):
        self.path, self.t, self.pos, self.closed, self.broken = path, text, 0, False, False
        self.sure = True


def cshow(c):
    return {" ": "#\\space", "\n": "#\\newline", "\t": "#\\ht"}.get(c, "#\\" + c)


class Reader:
    """the reference: one operation on a port; fail = device offset of a failing read in this operation, or None"""

    def __init__(self, port, fails):
        self.p, self.fails = port, fails

    def at_fault(self):
        if self.fails and self.fails[0] == self.p.pos:
            self.fails.pop(0)
            raise IOErr()

    def peek(self):
        p = self.p
        if p.closed:
            return None
        self.at_fault()
        return p.t[p.pos] if p.pos < len(p.t) else None

    def get(self):
        c = self.peek()
        if c is not None:
            self.p.pos += 1
        return c

    def read(self):
        """text of the next datum, None at end of input"""
        if self.p.closed:
            return None
        while True:
            c = self.peek()
            if c is None:
                return None
            if c in WS:
                self.get()
            elif c == ";":
                while True:
                    c = self.get()
                    if c is None or c in "\n\r":
                        if c == "\r" and self.peek() == "\n":
                            self.get()
                        break
            else:
                break
        buf, depth, ins, esc, com, atom = "", 0, False, False, False, False
        ends = WS + "()\";'`,"
        while True:
            c = self.peek()
            if c is None:
                return buf if depth == 0 and not ins else None
            if atom and depth == 0 and not esc and c in ends and not (c == "(" and buf[-1:] == "#"):
                return buf
            self.get()
            if com:
                com = c not in "\n\r"
                continue
            if c == ";" and not ins and not esc:
                com, c = True, " "
            buf += c
            if esc:
                esc = False
            elif c == "\\" and (ins or buf[-2:-1] == "#"):
                esc = True
            elif c == '"':
                ins = not ins
                if not ins and depth == 0:
                    return buf
            elif ins:
                pass
            elif c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth <= 0:
                    return buf
            elif c not in ends and not (c == "@" and buf[-2:-1] == ","):
                atom = True


TOK = re.compile(r"""[ \t\n\r]+|(?P<int>0(?![\w.+-])|-?[1-9]\d{0,8}(?![\w.+-]))|(?P<sym>foo(?![-\w?])|bar-baz(?![-\w?])|q\?(?![-\w?]))|(?P<str>"[sz0-9 ();]*")"""
                 r"""|(?P<chr>\#\\[a-z0-9();"'](?![-\w?]))|(?P<bool>\#[tf](?![-\w?]))|(?P<open>\#?\()|(?P<close>\))|(?P<q>')""")


def value(t):
    """the written form of the datum this text stands for, None when it is no plain datum"""
    toks, i = [], 0
    while i < len(t):
        m = TOK.match(t, i)
        if not m:
            return None
        if m.lastgroup:
            # what may follow without a space: only what a delimiter separates
            toks.append((m.lastgroup, m.group()))
        i = m.end()
    pos = [0]

    def go():
        if pos[0] >= len(toks):
            raise ValueError
        k, x = toks[pos[0]]
        pos[0] += 1
        if k == "open":
            l = []
            while pos[0] < len(toks) and toks[pos[0]][0] != "close":
                l.append(go())
            if pos[0] >= len(toks) or not l:
                raise ValueError
            pos[0] += 1
            return x + " ".join(l) + ")"
        if k == "close":
            raise ValueError
        if k == "q":
            return "(quote " + go() + ")"
        return x
    try:
        v = go()
    except ValueError:
        return None
    return v if pos[0] == len(toks) else None


ANY = object()


def expect(o, port, fails, case):
    """(expected text or ANY, broken afterwards) of one operation"""
    k = o["k"]
    r = Reader(port, fails)
    try:
        if k in ("rc", "pc", "cwifchar"):
            c = r.get() if k != "pc" else r.peek()
            return "EOF" if c is None else cshow(c)
        if k == "ready":
            if port.path == "<string>":
                return "#t" if not port.closed and port.pos < len(port.t) else "#f"
            return "#f" if r.peek() is None else "#t"
        if k == "skip":
            c = "none"
            for _ in range(o["n"]):
                c = r.get()
                c = "EOF" if c is None else cshow(c)
            return c
        if k in ("slurp", "cwifall"):
            s = ""
            while True:
                c = r.get()
                if c is None:
                    return show(s)
                s += c
        if k in ("rd", "cwifread"):
            if port.broken and k == "rd":
                c = r.get()
                return "EOF" if c is None else cshow(c)
            t = r.read()
            if t is None:
                return "EOF"
            if value(t) is not None:
                return value(t)
            port.maybe = True
            return ANY
        if k == "readall":
            l = []
            if port.broken:
                r.get()
                return "()"
            while True:
                t = r.read()
                if t is None:
                    return "(" + " ".join(l) + ")"
                if value(t) is None:
                    port.maybe = True
                    return ANY
                l.append(value(t))
    except IOErr:
        return "err"


def p03_judge(case, r):
    if r.kind != "exit":
        return "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace"))
    lines, fails, opens, cur = [], {}, {}, b""
    for t, p in r.recs:
        if t == "O":
            cur += p
            while b"\n" in cur:
                l, cur = cur.split(b"\n", 1)
                lines.append(l.decode("latin-1"))
        elif t == "I":
            w = p.decode().split(" ")
            if w[0] == "readerr":
                fails.setdefault((len(lines), w[1]), []).append(int(w[2]))
            elif w[0] == "openerr":
                opens[(len(lines), w[1])] = 1
        elif t == "F":
            w = p.decode().split(" ", 4)
            if w[1] == "open":
                opens[(len(lines), w[4])] = 1
    ports, broken, stdin = {}, {}, None
    n = 0
    for o in case["ops"]:
        if n >= len(lines):
            return "trace: the program stopped before operation %d" % o["i"]
        w = lines[n].split(" ", 1)
        if len(w) != 2 or w[0] != str(o["i"]):
            return "trace: operation %d expected, the program printed %r" % (o["i"], lines[n][:80])
        got = w[1]
        k = o["k"]
        if k == "open":
            if (n, o["f"]) in opens:
                exp = "err"
            else:
                exp = "0"
                ports[o["p"]] = Port(o["f"], case["files"][o["f"]])
        elif k == "strin":
            exp = "0"
            ports[o["p"]] = Port("<string>", o["d"])
        elif k == "stdin":
            exp = "0"
            stdin = stdin or Port("<stdin>", case["stdin"])
            ports[o["p"]] = stdin
        elif k.startswith("cwif"):
            if (n, o["f"]) in opens:
                exp = "err"
            else:
                exp = expect(o, Port(o["f"], case["files"][o["f"]]), fails.get((n, o["f"]), []), case)
        elif ports.get(o["p"]) is None:
            exp = "err"
        elif k == "close":
            exp = "0"
            ports[o["p"]].closed = True
        else:
            p = ports[o["p"]]
            if not p.sure:
                exp = ANY
            else:
                fl = fails.get((n, p.path), [])
                p.maybe, p.broken = False, broken.get(o["p"], False)
                exp = expect(o, p, fl, case)
                if p.maybe:
                    # text that is no plain datum: the reader may report an error or not; what follows on this port is unknown only for readall
                    p.maybe = False
                    if k == "readall":
                        p.sure = False
        if k in ("open", "strin", "stdin"):
            broken[o["p"]] = False
        if got == "err" and "p" in o:
            broken[o["p"]] = True
        if exp is not ANY and got != exp:
            if got in ("EOF",) or exp == "err":
                return "device: operation %d (%s) gave %s, the device says %s" % (o["i"], k, got[:60], exp[:60])
            i = 0
            while i < min(len(got), len(exp)) and got[i] == exp[i]:
                i += 1
            return "value: operation %d (%s) gave %r, the device holds %r (difference at %d)" % (o["i"], k, got[max(0, i - 10):i + 30], exp[max(0, i - 10):i + 30], i)
        n += 1
    if lines[n:] != ["the end"]:
        return "trace: end expected, the program printed %r" % lines[n:][:3]
    return None


class P03(OpsProp):
    id = "P03"
    cases = {"quick": 3500, "thorough": 200000}
    rule = ("each case is a history of character, datum, look-ahead and whole-file reads over several file, string and standard-input ports, run under injected short reads, EIO, EINTR, failing opens, buffer sizes and collections; "
            "each result must be what a reference reader gives at that position of the device, an error exactly when the device failed at the position being read. Non-trivial: a read was cut or failed; distinct by event-log digest")

    def gen(self, rng, idx, tier):
        files, ops, stdin = GenIn(rng).case_ops(tier)
        k = {"seed": rng.getrandbits(31), "bufsize": rng.choice([0, 0, 1, 2, 5, 64, 300])}
        if rng.random() < .9:
            k["io_mode"] = 1
            lvl = rng.choice([10, 60, 250])
            for f in ("read_EIO", "read_EINTR", "read_SHORT", "open_EMFILE", "open_ENOENT"):
                if rng.random() < .6:
                    k["p_" + f] = rng.choice([lvl // 5, lvl]) if f != "read_SHORT" else rng.choice([100, 500])
        if rng.random() < .3:
            k["read_cap"] = rng.choice([1, 3, 17])
        if rng.random() < .15:
            k["max_fd"] = rng.choice([1, 2])
        if stdin:
            k["stdin_faulty"] = 1
        if rng.random() < .4:
            k.update(gc_knobs(rng, False))
        return {"ops": ops, "files": files, "stdin": stdin, "knobs": k}

    def render(self, case):
        return render(case)

    def spec(self, case):
        s = OpsProp.spec(self, case)
        s["faulty"] = case["files"]
        s["stdin"] = case["stdin"]
        return s

    def evaluate(self, ctx, case):
        r = ctx.run(self.spec(case))
        return Outcome(p03_judge(case, r), not any(" read " in f for f in r.faults), r.digest)

    def shrinks(self, case):
        yield from OpsProp.shrinks(self, case)
        for f, t in case["files"].items():
            if len(t) > 4:
                yield dict(case, files=dict(case["files"], **{f: t[:len(t) // 2]}))


LPRE = """(define (say a b) (begin (display a) (display " ") (display b) (newline)))
(define (op id th) (say id (catch #t (lambda () (begin (th) 'ok)) (lambda a 'err))))
(define total 0)
(define (chain n th) (if (= n 0) (th) (dynamic-wind (lambda () 1) (lambda () (catch 'never (lambda () (chain (- n 1) th)) (lambda a 'no))) (lambda () 1))))
"""


class P04(OpsProp):
    id = "P04"
    cases = {"quick": 30000, "thorough": 1500000}
    rule = ("each case is a tree of source files that load one another (some with syntax errors or expressions that throw), loaded repeatedly from a program, or the program file itself, with injected open, seek and read failures, short reads and collections; "
            "an intact load runs all expressions in order, a failed open or read runs none and raises an error, and later loads are unaffected. Non-trivial: a read, seek or open of a source file failed or was cut; distinct by event-log digest")

    def gen(self, rng, idx, tier):
        files = {}
        nf = rng.choice([1, 2, 4])
        n = 0
        for i in range(nf, 0, -1):
            items = []
            for _ in range(rng.choice([1, 1, 3, 8, 20])):
                n += 1
                x = rng.random()
                if x < .55:
                    items.append(["say", n])
                elif x < .65:
                    items.append(["pad", rng.choice([10, 500, 3900, 4096, 6000])])
                elif x < .72:
                    items.append(["def", n])
                elif x < .84 and i < nf:
                    items.append(["load", rng.randint(i + 1, nf), n])
                elif x < .92 and i < nf:
                    items.append(["cload", rng.randint(i + 1, nf), n])
                elif x < .95:
                    items.append(["throw", n])
                elif x < .965:
                    items.append(["syntax", rng.choice(["(a b", ")", "(say 1 2", "(say 'f 77))"])])
                else:
                    items.append(["say", n])
            bad = [t for t in items if t[0] == "syntax"]
            items = [t for t in items if t[0] != "syntax" or t is bad[0]]
            if not any(t[0] != "pad" for t in items):
                items.append(["say", 0])
            files[str(i)] = items
        ops = []
        for j in range(rng.choice([1, 3, 8])):
            o = {"i": j + 1, "f": rng.randint(1, nf), "how": rng.choice(["load", "primitive-load"])}
            if rng.random() < .1:
                o["f"] = 99
            if rng.random() < .2:
                o["deep"] = rng.choice([1, 4])
            ops.append(o)
        k = {"seed": rng.getrandbits(31), "bufsize": rng.choice([0, 0, 1, 7, 300]), "io_mode": 1}
        lvl = rng.choice([5, 30, 150, 400])
        for f in ("read_EIO", "read_EINTR", "read_SHORT", "open_EMFILE", "open_EACCES", "seek_ESPIPE"):
            if rng.random() < .5:
                k["p_" + f] = lvl
        if rng.random() < .3:
            k["io_max"] = rng.choice([1, 2])
        if rng.random() < .15:
            k["max_fd"] = rng.choice([1, 2])
        if rng.random() < .4:
            k.update(gc_knobs(rng, False))
        c = {"ops": ops, "tree": files, "knobs": k}
        if rng.random() < .2:
            c["main"] = 1  # the program file is itself on the failing device
            if "gc_mode" in k and rng.random() < .5:
                k["gc_arm"] = 1
        return c

    def text(self, items):
        out = []
        for t in items:
            if t[0] == "say":
                out.append("(say 'f %d)" % t[1])
            elif t[0] == "pad":
                out.append(";" + "." * t[1])
            elif t[0] == "def":
                out.append("(set! total (+ total %d))" % t[1])
            elif t[0] == "load":
                out.append('(begin (load "/s%d.scm") (say \'l %d))' % (t[1], t[2]))
            elif t[0] == "cload":
                out.append('(op %d (lambda () (load "/s%d.scm")))' % (t[2], t[1]))
            elif t[0] == "throw":
                out.append("(throw 'planned %d)" % t[1])
            else:
                out.append(t[1])
        return "\n".join(out) + "\n"

    def render(self, case):
        out = [LPRE]
        for o in case["ops"]:
            b = '(%s "/s%d.scm")' % (o["how"], o["f"])
            if o.get("deep"):
                b = "(chain %d (lambda () %s))" % (o["deep"], b)
            out.append("(op %d (lambda () %s))" % (o["i"], b))
        out.append("(say 'total total)")
        out.append("(say 'the 'end)")
        return "\n".join(out) + "\n"

    def spec(self, case):
        s = OpsProp.spec(self, case)
        s["faulty"] = {"/s%s.scm" % i: self.text(t) for i, t in case["tree"].items()}
        if case.get("main"):
            s["faulty"]["/p.scm"] = s["files"].pop("/p.scm")
        return s

    def judge(self, case, r):
        if r.kind != "exit":
            return "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace"))
        lines, ev, cur = [], [], b""
        for t, p in r.recs:
            if t == "O":
                cur += p
                while b"\n" in cur:
                    l, cur = cur.split(b"\n", 1)
                    lines.append(l.decode("latin-1"))
            elif t == "F":
                w = p.decode().split(" ", 4)
                ev.append((w[2], w[1], w[4] if len(w) > 4 else "", len(lines)))
            elif t == "I":
                w = p.decode().split(" ")
                if w[0] == "noent":
                    ev.append(("ENOENT", "open", w[1], len(lines)))
                if w[0] == "open":
                    ev.append(("", "try", w[1], len(lines)))
        # attempts to load, in order: (file, failed)
        tries = []
        for k, s, p, n in ev:
            if s == "open" and k:
                tries.append([p, True, k])
            elif s == "try":
                tries.append([p, False, ""])
            elif tries and k != "SHORT" and s in ("read", "seek"):
                tries[-1][1:] = [True, s + ":" + k]
        tr = iter(tries)
        exp = []
        tot = [0]

        class Err(Exception):
            pass

        def load(f):
            t = next(tr, None)
            if t is None:
                raise ValueError("trace: no attempt to open %s was made" % f)
            if t[0] != f:
                raise ValueError("trace: %s was to be loaded, the program opened %s" % (f, t[0]))
            if t[1] or f[2:-4] not in case["tree"]:
                raise Err()
            items = case["tree"][f[2:-4]]
            if any(x[0] == "syntax" for x in items):
                raise Err()
            for x in items:
                if x[0] == "say":
                    exp.append("f %d" % x[1])
                elif x[0] == "def":
                    tot[0] += x[1]
                elif x[0] == "load":
                    load("/s%d.scm" % x[1])
                    exp.append("l %d" % x[2])
                elif x[0] == "cload":
                    caught(x[2], "/s%d.scm" % x[1])
                elif x[0] == "throw":
                    raise Err()

        def caught(i, f):
            try:
                load(f)
                exp.append("%d ok" % i)
            except Err:
                exp.append("%d err" % i)
        try:
            t = next(tr, None)
            if t is None or t[0] != "/p.scm":
                return "trace: the program file was not opened"
            if t[1]:
                if lines or cur:
                    return "partial: the program file could not be read and yet printed %r" % (lines[:2],)
                return None if r.status != 0 else "status: the program file could not be read and the exit status is 0"
            for o in case["ops"]:
                caught(o["i"], "/s%d.scm" % o["f"])
            exp.append("total %d" % tot[0])
            exp.append("the end")
        except ValueError as e:
            return str(e)
        for a, b in zip(lines, exp):
            if a != b:
                return "trace: %r printed where %r was due" % (a[:60], b)
        if len(lines) != len(exp) or cur:
            return "trace: %d lines printed, %d due" % (len(lines), len(exp))
        if r.status != 0:
            return "status: %d" % r.status
        return None

    def evaluate(self, ctx, case):
        r = ctx.run(self.spec(case))
        return Outcome(self.judge(case, r), not r.faults, r.digest)

    def shrinks(self, case):
        yield from OpsProp.shrinks(self, case)
        for f, t in case["tree"].items():
            for i in range(len(t)):
                if len(t) > 1:
                    yield dict(case, tree=dict(case["tree"], **{f: t[:i] + t[i + 1:]}))


PROPS = [P03(), P04()]

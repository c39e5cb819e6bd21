"""M01 modules: seeded module graphs and import histories with load failures and file faults, against a reference model of the registry."""
from vf.control import gc_knobs
from vf.engine import Outcome
from vf.props.outports import OpsProp

PRE = """(define (say a b) (begin (display a) (display " ") (write b) (newline)))
(define (try id th) (let ((v (catch #t (lambda () (list (th))) (lambda a #f)))) (if v (say id (car v)) (say id 'err))))
(define (ok id th) (say id (catch #t (lambda () (begin (th) 'ok)) (lambda a 'err))))
(define counts (make-vector 20 0))
(define (tick! i) (begin (vector-set! counts i (+ 1 (vector-ref counts i))) (vector-ref counts i)))
(define priv 'root)
(define root-module (current-module))
(set! %load-path (cons "/lib" %load-path))
"""


def mname(case, i):
    return "(%s)" % case["mods"][i]["name"]


def fpath(case, i):
    return ("/lib/" if case["mods"][i]["lib"] else "") + case["mods"][i]["name"].replace(" ", "/") + ".scm"


FAILS = {"throw": "(throw 'planned %d)", "prim": "(car %d)", "unbound": "(no-such-name-%d)", "index": "(vector-ref (vector) %d)"}


def text(case, i, fixed=False):
    if fixed == "bad":
        # a file somebody is still writing: the last form is not closed
        t = text(case, i, True).rstrip()
        return t[:-1]
    m = case["mods"][i]
    h = m["head"]
    out = ["(say 'load %d)" % i, "(define-module %s" % mname(case, i)]
    for j in h["use"]:
        out.append("  #:use-module %s" % mname(case, j))
    if h["exp"]:
        out.append("  #:export (%s)" % " ".join(h["exp"]))
    if h["auto"]:
        out.append("  #:autoload %s %s" % (mname(case, h["auto"][0]), " ".join(h["auto"][1])))
    out.append(")")
    out.append("(define self (current-module))\n(define priv %d)" % (1000 + i))
    for s in m["body"]:
        k = s[0]
        if k == "cm":
            out.append("(say 'cm%d (eq? (current-module) self))" % i)
        elif k == "use":
            out.append("(use-modules %s)" % " ".join(mname(case, j) for j in s[1]))
        elif k == "cuse":
            out.append("(ok 'c%d (lambda () (use-modules %s)))" % (i, mname(case, s[1])))
        elif k == "defv":
            out.append("(define v%d-%d %d)" % (i, s[1], s[2]))
        elif k == "dpub":
            out.append("(define-public v%d-%d %d)" % (i, s[1], s[2]))
        elif k == "defcall":
            out.append("(define v%d-%d (f%d-0))" % (i, s[1], s[2]))
        elif k == "deff":
            out.append("(define (f%d-0) (list 'f%d-0 priv v%d-0))" % (i, i, i))
        elif k == "deff1":
            refs = " ".join("(f%d-0)" % r[1] if r[0] == "f" else "v%d-0" % r[1] for r in s[1])
            out.append("(define (f%d-1) (list 'f%d-1 priv %s))" % (i, i, refs))
        elif k == "defb":
            out.append("(define (f%d-b) (begin (set! v%d-0 (+ v%d-0 1)) (set! priv (+ priv 100)) v%d-0))" % (i, i, i, i))
        elif k == "export":
            out.append("(export %s)" % " ".join(s[1]))
        elif k == "reexp":
            out.append("(re-export %s)" % " ".join(s[1]))
        elif k == "fail":
            if not fixed:
                out.append("(if (<= (tick! %d) %d) %s 0)" % (i, s[1], FAILS[s[2] if len(s) > 2 else "throw"] % i))
        elif k == "defm":
            out.append("(define-macro (mac%d x) (list 'list ''mac%d x))" % (i, i))
    out.append("(say 'end %d)" % i)
    return "\n".join(out) + "\n"


class Gen:
    def __init__(self, rng):
        self.r = rng

    def module(self, i, n):
        r = self.r
        others = [j for j in range(n) if j != i]
        fwd = [j for j in others if j > i]
        pick = lambda: r.choice(fwd) if fwd and r.random() < .75 else (r.choice(others) if others else None)
        names = ["v%d-0" % i, "f%d-0" % i, "f%d-1" % i, "f%d-b" % i]
        mac = r.random() < .3
        if mac:
            names.append("mac%d" % i)
        exp = [x for x in names if r.random() < .85] or [names[1]]
        head = {"use": [], "exp": [], "auto": None}
        how = r.random()
        late = []
        if how < .4:
            head["exp"] = exp
        elif how < .7:
            c = r.randint(1, len(exp))
            head["exp"], late = exp[:c], exp[c:]
        else:
            head["exp"], late = exp[:1], exp[1:]
        used = []
        if others and r.random() < .35:
            j = pick()
            head["use"].append(j)
            used.append(j)
        if others and r.random() < .25:
            j = pick()
            if j not in used:
                head["auto"] = [j, ["f%d-0" % j] + (["v%d-0" % j] if r.random() < .5 else [])]
        body = []
        for _ in range(r.choice([0, 1, 1, 2])):
            j = pick()
            if j is None:
                continue
            body.append(["use", [j]] if r.random() < .6 else ["cuse", j])
            body.append(["cm"])
            if r.random() < .35:
                body.append(["reexp", r.choice([["v%d-0" % j], ["f%d-0" % j, "v%d-0" % j], ["f%d-1" % j, "v%d-0" % j, "f%d-b" % j], ["v%d-2" % j]])])
            used.append(j)
        refs = [[r.choice("fv"), j] for j in used if r.random() < .8]
        if head["auto"]:
            refs.append(["f", head["auto"][0]])
        defs = [["defv", 0, r.randint(0, 99)], ["deff"], ["deff1", refs], ["defb"]]
        if mac:
            defs.append(["defm"])
        if r.random() < .3:
            defs.append(["dpub", 2, r.randint(0, 99)])
        if r.random() < .4:
            r.shuffle(defs)
        if late:
            body.insert(r.randint(0, len(body)), ["export", late])
        if used and r.random() < .1:
            body.insert(r.randint(0, len(body)), ["reexp", ["v%d-0" % r.choice(used)]])
        at = sorted(r.randint(0, len(body)) for _ in defs)
        for d, a in reversed(list(zip(defs, at))):
            body.insert(a, d)
        if used and r.random() < .25:
            body.append(["defcall", 1, r.choice(used)])
        if r.random() < .3:
            body.insert(r.randint(0, len(body)), ["fail", r.choice([1, 1, 2, 3]), r.choice(sorted(FAILS))])
        body.append(["cm"])
        return {"name": r.choice(["m%d", "m%d", "a m%d", "a b m%d"]) % i, "lib": int(r.random() < .7), "head": head, "body": body}

    def case(self, faults):
        r = self.r
        n = r.choice([1, 2, 3, 4, 6])
        mods = [self.module(i, n) for i in range(n)]
        missing = [] if faults else [i for i in range(n) if r.random() < .12]
        ops = []
        bad = [] if faults else [i for i in range(n) if i not in missing and r.random() < .08]
        for x in range(1, r.choice([6, 12, 25])):
            i = r.randrange(n)
            k = r.choice(["use", "use", "use", "use2", "call0", "call1", "call1", "bump", "ref", "ref", "refx", "mset", "cm", "write", "mref", "mref", "mrefi", "mrefi", "muse", "muse2", "mlen", "mbound", "shadow", "mac"])
            if k == "mac" and not any(["defm"] == b for b in mods[i]["body"]) and r.random() < .8:
                k = "use"
            o = {"k": k, "i": x, "m": i}
            if k in ("use2", "muse2"):
                o["m2"] = r.randrange(n)
            if k in ("mref", "mrefi", "mbound"):
                o["s"] = r.choice(["v%d-0" % i, "v%d-0" % i, "v%d-2" % i, "priv", "v%d-0" % r.randrange(n)])
            if k == "shadow":
                if r.random() < .6:
                    continue
                o["s"] = r.choice(["v%d-0" % i, "v%d-2" % i])
            if k == "write":
                if faults:
                    continue
                o["fixed"] = int(r.random() < .5)
                if r.random() < .2:
                    o["fixed"] = "bad"
            ops.append(o)
        return {"mods": mods, "missing": missing, "bad": bad, "ops": ops}


def render(case):
    out = [PRE]
    for o in case["ops"]:
        k, x, i = o["k"], o["i"], o["m"]
        if k == "use":
            out.append("(ok %d (lambda () (use-modules %s)))" % (x, mname(case, i)))
        elif k == "use2":
            out.append("(ok %d (lambda () (use-modules %s %s)))" % (x, mname(case, i), mname(case, o["m2"])))
        elif k in ("call0", "call1", "bump"):
            out.append("(try %d (lambda () (f%d-%s)))" % (x, i, {"call0": "0", "call1": "1", "bump": "b"}[k]))
        elif k == "ref":
            out.append("(try %d (lambda () v%d-0))" % (x, i))
        elif k == "mac":
            out.append("(try %d (lambda () (mac%d 7)))" % (x, i))
        elif k == "refx":
            out.append("(try %d (lambda () (list priv v%d-2)))" % (x, i))
        elif k == "mset":
            out.append("(try %d (lambda () (begin (set! v%d-0 %d) v%d-0)))" % (x, i, 5000 + x, i))
        elif k == "mref":
            out.append("(try %d (lambda () (module-ref (resolve-module '%s) '%s)))" % (x, mname(case, i), o["s"]))
        elif k == "mrefi":
            out.append("(try %d (lambda () (module-ref (module-ref (resolve-module '%s) '%%module-public-interface) '%s)))" % (x, mname(case, i), o["s"]))
        elif k == "mbound":
            out.append("(try %d (lambda () (module-bound? (resolve-module '%s) '%s)))" % (x, mname(case, i), o["s"]))
        elif k == "mlen":
            out.append("(try %d (lambda () (length (module-map (lambda (k v) k) (resolve-module '%s)))))" % (x, mname(case, i)))
        elif k == "muse":
            out.append("(ok %d (lambda () (module-use! root-module '%s)))" % (x, mname(case, i)))
        elif k == "muse2":
            out.append("(ok %d (lambda () (module-use! (resolve-module '%s) '%s)))" % (x, mname(case, i), mname(case, o["m2"])))
        elif k == "shadow":
            out.append("(define %s %d)" % (o["s"], 7000 + x))
        elif k == "cm":
            out.append("(say %d (eq? (current-module) root-module))" % x)
        elif k == "write":
            t = text(case, i, o["fixed"]).replace("\\", "\\\\").replace('"', '\\"')
            out.append('(ok %d (lambda () (call-with-output-file "%s" (lambda (p) (display "%s" p)))))' % (x, fpath(case, i), t))
    out.append("(say \"the\" 'end)")
    return "\n".join(out) + "\n"


class Throw(Exception):
    pass


class Bad(Exception):
    pass


class Stop(Exception):
    """the result hangs on a name the module does not import but its caller may"""


class Branch(Exception):
    pass


class Inst:
    def __init__(self, i):
        self.i, self.vars, self.uses, self.exports, self.iface, self.nocode, self.auto = i, {}, [], set(), False, False, []
        self.copy = None

    def view(self):
        if self.nocode and not self.vars:
            self.iface = True
        return (self, self.iface)


def seen(view, s, done=None):
    """the module whose variable s means in a view: a re-exported name is that of the module it comes from"""
    m, iface = view
    if not iface:
        return m if s in m.vars else None
    copy = m.copy is not None and s in m.copy.vars
    if copy or s in m.exports:
        if s in m.vars:
            return m
        done = set() if done is None else done
        if m not in done:
            done.add(m)
            for v in m.uses:
                t = seen(v, s, done)
                if t:
                    return t
    return m.copy if copy else None


class Model:
    def __init__(self, case, lines, faults, choices):
        self.case, self.lines, self.faults = case, lines, faults
        self.p = 0
        self.choices, self.nchoice = choices, 0
        self.root = Inst(-1)
        self.root.vars["priv"] = "root"
        self.cur = self.root
        self.reg = {}
        self.files = {i: "bad" if i in case.get("bad", ()) else False for i in range(len(case["mods"])) if i not in case["missing"]}
        self.ticks = {}
        self.loads = 0

    # output
    def out(self, e):
        if self.p >= len(self.lines):
            raise Bad("%r due, the program stopped" % e)
        g = self.lines[self.p][1]
        if g != e:
            raise Bad("%r due, %r printed" % (e[:80], g[:80]))
        self.p += 1

    def fault(self, i):
        lo = self.lines[self.p - 1][0] + 1 if self.p else 0
        hi = self.lines[self.p][0] if self.p < len(self.lines) else 1 << 60
        f = "/" + fpath(self.case, i).lstrip("/")
        tail = "/" + self.case["mods"][i]["name"].replace(" ", "/") + ".scm"
        return any(lo <= n <= hi and ("/" + p.lstrip("/") == f or ("/" + p).endswith(tail)) for p, n in self.faults)

    # modules
    def resolve(self, i):
        m = self.reg.get(i)
        if m and not m.nocode:
            return m
        nxt = self.lines[self.p][1] if self.p < len(self.lines) else ""
        what = "nocode"
        if i in self.files:
            bad = self.fault(i)
            if self.files[i] == "bad" and not bad:
                what = "err"
            elif nxt == "load %d" % i and not bad:
                what = "load"
            elif not bad:
                raise Bad("module %d due to be loaded, %r printed" % (i, nxt[:60]))
            else:
                if self.nchoice >= len(self.choices):
                    raise Branch()
                what = ("load", "nocode", "err")[self.choices[self.nchoice]]
                self.nchoice += 1
                if self.files[i] == "bad" and what == "load":
                    what = "err"
        elif nxt == "load %d" % i:
            raise Bad("module %d was loaded but has no file" % i)
        if m is None:
            m = self.reg[i] = Inst(i)
        m.nocode = what == "nocode"
        if what == "nocode":
            return m
        old = self.cur
        self.cur = m
        try:
            if what == "err":
                raise Throw()
            self.load(m, i)
        except Throw:
            del self.reg[i]
            raise
        finally:
            self.cur = old
        return m

    def use(self, m, i):
        m.uses.insert(0, self.resolve(i).view())

    def load(self, m, i):
        self.loads += 1
        self.out("load %d" % i)
        d = self.case["mods"][i]
        h = d["head"]
        for j in h["use"]:
            self.use(m, j)
        if h["exp"]:
            self.export(m, h["exp"])
        if h["auto"]:
            m.auto.insert(0, (h["auto"][0], h["auto"][1]))
        m.vars["self"] = None
        m.vars["priv"] = 1000 + i
        for s in d["body"]:
            k = s[0]
            if k == "cm":
                self.out("cm%d #t" % i)
            elif k == "use":
                for j in s[1]:
                    self.use(m, j)
            elif k == "cuse":
                try:
                    self.use(m, s[1])
                    self.out("c%d ok" % i)
                except Throw:
                    self.out("c%d err" % i)
            elif k in ("defv", "dpub"):
                m.vars["v%d-%d" % (i, s[1])] = s[2]
                if k == "dpub":
                    self.export(m, ["v%d-%d" % (i, s[1])])
            elif k == "defcall":
                m.vars["v%d-%d" % (i, s[1])] = self.call(m, "f%d-0" % s[2])
            elif k == "deff":
                m.vars["f%d-0" % i] = (m, "0", [])
            elif k == "deff1":
                m.vars["f%d-1" % i] = (m, "1", s[1])
            elif k == "defb":
                m.vars["f%d-b" % i] = (m, "b", [])
            elif k == "defm":
                m.vars["mac%d" % i] = (m, "mac", [])
            elif k in ("export", "reexp"):
                self.export(m, s[1])
            elif k == "fail":
                if self.files[i] is False:
                    self.ticks[i] = self.ticks.get(i, 0) + 1
                    if self.ticks[i] <= s[1]:
                        raise Throw()
        self.out("end %d" % i)

    def export(self, m, names):
        for s in names:
            m.exports.add(s)
            m.iface = True
            t = self.find(m, s)
            if t and s not in m.vars:
                # (what a name meant when it was exported stays if it can no longer be found)
                if m.copy is None:
                    m.copy = Inst(m.i)
                m.copy.vars[s] = t.vars[s]

    def find(self, m, s):
        """the module whose variable s means in m"""
        if s in m.vars:
            return m
        for v in m.uses:
            t = seen(v, s)
            if t:
                return t
        if s in self.root.vars:
            return self.root
        for n, (j, names) in enumerate(m.auto):
            if s in names:
                del m.auto[n]
                try:
                    t = self.resolve(j)
                except Throw:
                    m.auto.insert(0, (j, names))
                    raise
                if t.nocode:
                    m.auto.insert(0, (j, names))
                    return None
                m.uses.insert(0, t.view())
                return self.find(m, s)
        return None

    def value(self, m, s):
        t = self.find(m, s)
        if t is None:
            if self.cur is not m:
                # the interpreter goes on looking in the current module
                if s in self.cur.vars or any(seen(v, s) for v in self.cur.uses) or any(s in a[1] for a in self.cur.auto):
                    raise Stop()
            raise Throw()
        return t.vars[s]

    def call(self, m, s):
        f = self.value(m, s)
        o, k, refs = f
        if k == "mac":
            return [s, 7]
        if k == "0":
            return ["f%d-0" % o.i, self.value(o, "priv"), self.value(o, "v%d-0" % o.i)]
        if k == "1":
            r = ["f%d-1" % o.i, self.value(o, "priv")]
            for t, j in refs:
                r.append(self.call(o, "f%d-0" % j) if t == "f" else self.value(o, "v%d-0" % j))
            return r
        v = self.value(o, "v%d-0" % o.i)
        self.find(o, "v%d-0" % o.i).vars["v%d-0" % o.i] = v + 1
        self.find(o, "priv").vars["priv"] = self.value(o, "priv") + 100
        return v + 1

    def mref(self, k, i, s):
        m = self.resolve(i)
        if k == "mrefi" and m.iface:
            t = seen((m, True), s) or (self.root if s in self.root.vars else None)
        else:
            t = self.find(m, s)
        if k == "mbound":
            return "#t" if t else "#f"
        if not t:
            raise Throw()
        return t.vars[s]

    def attempt(self, x, th, show=True):
        try:
            v = th()
            self.out("%d %s" % (x, pr(v) if show else "ok"))
        except Throw:
            self.out("%d err" % x)

    def run(self):
        for o in self.case["ops"]:
            k, x, i = o["k"], o["i"], o["m"]
            if k == "use":
                self.attempt(x, lambda: self.use(self.root, i), False)
            elif k == "use2":
                self.attempt(x, lambda: (self.use(self.root, i), self.use(self.root, o["m2"])), False)
            elif k in ("call0", "call1", "bump"):
                self.attempt(x, lambda: self.call(self.root, "f%d-%s" % (i, {"call0": "0", "call1": "1", "bump": "b"}[k])))
            elif k == "ref":
                self.attempt(x, lambda: self.value(self.root, "v%d-0" % i))
            elif k == "mac":
                self.attempt(x, lambda: self.call(self.root, "mac%d" % i))
            elif k == "refx":
                self.attempt(x, lambda: ["root", self.value(self.root, "v%d-2" % i)])
            elif k == "mset":
                t = self.find(self.root, "v%d-0" % i)
                if t:
                    t.vars["v%d-0" % i] = 5000 + x
                self.out("%d %d" % (x, 5000 + x))
            elif k in ("mref", "mrefi", "mbound"):
                self.attempt(x, lambda: self.mref(k, i, o["s"]))
            elif k == "mlen":
                self.attempt(x, lambda: len(self.resolve(i).vars))
            elif k == "muse":
                self.attempt(x, lambda: self.use(self.root, i), False)
            elif k == "muse2":
                self.attempt(x, lambda: self.use(self.resolve(i), o["m2"]), False)
            elif k == "shadow":
                self.root.vars[o["s"]] = 7000 + x
            elif k == "cm":
                self.out("%d #t" % x)
            elif k == "write":
                self.files[i] = "bad" if o["fixed"] == "bad" else bool(o["fixed"])
                self.out("%d ok" % x)
        self.out('the end')
        if self.p != len(self.lines):
            raise Bad("%r printed after the end" % self.lines[self.p][1][:60])


def pr(v):
    return "(" + " ".join(pr(x) for x in v) + ")" if isinstance(v, list) else str(v)


def judge(case, r):
    if r.kind != "exit":
        return "ended: %s (%s)" % (r.kind, r.err[-120:].decode("utf8", "replace")), 0
    lines, faults, cur, n = [], [], b"", 0
    for t, p in r.recs:
        if t == "O":
            cur += p
            while b"\n" in cur:
                l, cur = cur.split(b"\n", 1)
                l = l.decode("utf8", "replace")
                if not l.startswith(("(", "[")):
                    lines.append((n, l))
                n += 1
        elif t == "F":
            w = p.decode().split(" ", 4)
            if w[2] != "SHORT" and len(w) > 4:
                faults.append((w[4], n))
    # where a file fault leaves two outcomes open, one of them must explain the whole run
    todo, best = [[]], None
    tries = 0
    while todo and tries < 400:
        tries += 1
        c = todo.pop()
        m = Model(case, lines, faults, c)
        try:
            m.run()
            return None, m.loads
        except Stop:
            return None, m.loads
        except Branch:
            todo += [c + [2], c + [1], c + [0]]
        except Bad as e:
            if best is None or m.p > best[0]:
                best = (m.p, str(e))
    if todo or best is None:
        return None, 0
    return "modules: " + best[1], 0


class M01(OpsProp):
    id = "M01"
    cases = {"quick": 15000, "thorough": 600000}
    rule = ("each case is a graph of one to six module files (importing one another in any order, cycles included, by use-modules, #:use-module or autoload, some failing on their first evaluations) and a history of imports, calls, assignments, "
            "references to exported and private names and rewritten files, with injected open and read failures and collections. Non-trivial: at least two module loads, or a file fault; distinct by event-log digest")
    assumptions = ["a module exports something before it imports a module that imports it back", "names a module uses without importing them are not compared"]

    def gen(self, rng, idx, tier):
        faults = rng.random() < .45
        c = Gen(rng).case(faults)
        k = gc_knobs(rng, False) or {"seed": rng.getrandbits(31)}
        if faults:
            k["io_mode"] = 1
            k["bufsize"] = rng.choice([0, 0, 7, 300])
            lvl = rng.choice([30, 100, 300])
            for f in ("read_EIO", "read_SHORT", "open_EMFILE", "open_EACCES", "open_ENOENT", "seek_ESPIPE"):
                if rng.random() < .4:
                    k["p_" + f] = lvl
            if rng.random() < .6:
                k["io_max"] = rng.choice([1, 2, 4])
        c["knobs"] = k
        return c

    def render(self, case):
        return render(case)

    def spec(self, case):
        s = OpsProp.spec(self, case)
        fs = {fpath(case, i): text(case, i, "bad" if i in case.get("bad", ()) else False) for i in range(len(case["mods"])) if i not in case["missing"]}
        for d in ("/lib/", "/lib/a/", "/lib/a/b/", "a/", "a/b/"):
            s["files"].setdefault(d, "")
        if "io_mode" in case["knobs"]:
            s["faulty"] = fs
        else:
            s["files"].update(fs)
        return s

    def evaluate(self, ctx, case):
        r = ctx.run(self.spec(case))
        v, loads = judge(case, r)
        return Outcome(v, loads < 2 and not r.faults, r.digest)

    def shrinks(self, case):
        yield from OpsProp.shrinks(self, case)
        for i, m in enumerate(case["mods"]):
            for n in range(len(m["body"])):
                b = m["body"][:n] + m["body"][n + 1:]
                yield dict(case, mods=case["mods"][:i] + [dict(m, body=b)] + case["mods"][i + 1:])
            for k, e in (("use", []), ("auto", None)):
                if m["head"][k]:
                    yield dict(case, mods=case["mods"][:i] + [dict(m, head=dict(m["head"], **{k: e}))] + case["mods"][i + 1:])


PROPS = [M01()]

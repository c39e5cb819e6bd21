"""The collector: transparency, reclamation, exhaustion."""
import glob, os, re
from vf import core, gendata
from vf.control import gc_knobs, diff
from vf.engine import Prop, Outcome

ADDR = re.compile(rb"0x[0-9a-f]+")


def lines_norm(b):
    return ADDR.sub(b"0x", b)


def rd_forms(text):
    """split program text into top-level forms (strings, chars and comments respected)"""
    out, depth, i, start = [], 0, 0, None
    n = len(text)
    while i < n:
        c = text[i]
        if c == ";":
            while i < n and text[i] != "\n":
                i += 1
            continue
        if c == '"':
            if start is None:
                start = i
            i += 1
            while i < n and text[i] != '"':
                i += 2 if text[i] == "\\" else 1
        elif text.startswith("#\\", i):
            i += 2
        elif c == "(":
            if start is None:
                start = i
            depth += 1
        elif c == ")":
            depth -= 1
            if depth == 0 and start is not None:
                out.append(text[start:i + 1])
                start = None
        i += 1
    return out


def sub_forms(f):
    """spans of proper sub-expressions of one form"""
    spans, st, i, n = [], [], 0, len(f)
    while i < n:
        c = f[i]
        if c == '"':
            i += 1
            while i < n and f[i] != '"':
                i += 2 if f[i] == "\\" else 1
        elif f.startswith("#\\", i):
            i += 2
        elif c == "(":
            st.append(i)
        elif c == ")" and st:
            spans.append((st.pop(), i + 1))
        i += 1
    return spans


def text_shrinks(case, key="forms"):
    fs = case[key]
    n = len(fs)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            if size < n:
                yield dict(case, **{key: fs[:i] + fs[i + size:]})
        size //= 2
    for i, f in enumerate(fs):
        for a, b in sorted(sub_forms(f), key=lambda s: s[0] - s[1]):
            if a == 0:
                continue
            for rep in ["1"] + [f[x:y] for x, y in sub_forms(f[a:b]) if False]:
                yield dict(case, **{key: fs[:i] + [f[:a] + rep + f[b:]] + fs[i + 1:]})
            inner = [(x + a, y + a) for x, y in sub_forms(f[a:b]) if x > 0]
            for x, y in sorted(inner, key=lambda s: s[0] - s[1])[:4]:
                yield dict(case, **{key: fs[:i] + [f[:a] + f[x:y] + f[b:]] + fs[i + 1:]})


def gcplan_shrinks(case):
    g = case.get("gcplan")
    if not g:
        return
    n = len(g)
    for parts in (2, 4, 8, 16, 32):
        if n >= parts:
            for i in range(parts):
                yield dict(case, gcplan=g[:i * n // parts] + g[(i + 1) * n // parts:])
    if n <= 12:
        for i in range(n):
            yield dict(case, gcplan=g[:i] + g[i + 1:])


def corpus():
    out = []
    for fn in sorted(glob.glob(os.path.join(core.REPO, "test", "**", "*.scm"), recursive=True)):
        try:
            out.append((os.path.relpath(fn, core.REPO), open(fn, encoding="latin-1").read()))
        except OSError:
            pass
    return out


class G01(Prop):
    id = "G01"
    cases = {"quick": 2600, "thorough": 90000}
    chunk = 6
    rule = ("each case is a generated data program (lists, strings, vectors, hash tables, ports, modules, macros, closures, promises, continuations) or one of the repository's own "
            "Scheme files, run once without injected collections and then under seeded collection schedules with reclaimed memory overwritten; the outputs, exit and files must agree. "
            "Non-trivial: the reference run finished and at least one injected collection reclaimed something; distinct by event-log digest")
    assumptions = ["printed object addresses are not part of the output compared"]

    def scenarios(self):
        if not hasattr(self, "_sc"):
            self._sc = [{"file": fn, "text": t, "scheds": [{"gc_mode": 1, "gc_rate": 2000, "seed": 11, "poison": 1, "gc_max": 300}, {"gc_mode": 1, "gc_rate": 20000, "seed": 12, "poison": 1, "perturb": 165, "gc_max": 300}]} for fn, t in corpus()]
        return self._sc

    def gen(self, rng, idx, tier):
        g = gendata.Gen(rng, size=rng.choice([40, 100, 200]))
        forms = g.program(rng.choice([4, 8, 14]), rng.choice([3, 4, 5, 6]))
        scheds = []
        for _ in range(2):
            k = {}
            while not k:
                k = gc_knobs(rng, True)
            scheds.append(k)
        return {"forms": forms, "scheds": scheds, "touch": g.n + 1}

    def spec(self, case, knobs, gcplan=None):
        if "file" in case:
            spec = {"files": {"p.scm": case["text"]}, "args": ["pscm", "--test", "p.scm"]}
        else:
            spec = {"files": dict(gendata.FILES), "args": ["pscm", "/p.scm"]}
            spec["files"]["/p.scm"] = gendata.PRE + "\n".join(case["forms"]) + "\n"
            for i in range(1, case.get("touch", 0) + 1):
                spec["files"]["/t/%d" % i] = ""
        spec["knobs"] = dict({"cpu_s": 30, "budget": 3000000, "track": 1}, **knobs)
        if gcplan is not None:
            spec["gcplan"] = gcplan
        return spec

    def runs(self, case):
        if "gcplan" in case:
            return [(dict(case["knobs"], gc_mode=2), case["gcplan"])]
        return [(k, None) for k in case["scheds"]]

    def evaluate(self, ctx, case):
        base = ctx.run(self.spec(case, {}))
        probes = {"base-" + base.kind: 1}
        if base.kind != "exit":
            v = None
            if "file" not in case and base.kind.startswith("signal"):
                v = "ended: %s without injected collections (%s)" % (base.kind, base.err[-160:].decode("utf8", "replace"))
            return Outcome(v, True, base.digest, probes)
        dg, triv, v = [base.digest], True, None
        for i, (k, plan) in enumerate(self.runs(case)):
            r = ctx.run(self.spec(case, k, plan))
            dg.append(r.digest)
            if r.kind in ("hang", "budget"):
                v = "ended: %s under collection schedule %d" % (r.kind, i)
                case["_bad"] = i
                break
            probes["gcs"] = probes.get("gcs", 0) + r.stat("gcs")
            if r.stat("gcs"):
                triv = False
            if r.viol:
                v = "memory: " + r.viol[0]
            elif r.kind != base.kind:
                v = "ended: %s under collections, %s without (%s)" % (r.kind, base.kind, r.err[-160:].decode("utf8", "replace"))
            elif r.status != base.status:
                v = "status: %d under collections, %d without" % (r.status, base.status)
            elif lines_norm(r.out) != lines_norm(base.out):
                v = diff(lines_norm(base.out).decode("utf8", "replace"), lines_norm(r.out).decode("utf8", "replace"))
            elif {p: d for p, d in r.files.items()} != {p: d for p, d in base.files.items()}:
                v = "files: final file contents differ"
            if v:
                case["_bad"] = i
                break
        return Outcome(v, triv, "-".join(dg), probes)

    def concretise(self, ctx, case):
        i = case.pop("_bad", 0)
        if "gcplan" in case:
            return case
        k = case["scheds"][i]
        r = ctx.run(self.spec(case, k))
        c = {x: y for x, y in case.items() if x != "scheds"}
        c["knobs"] = {x: y for x, y in k.items() if x in ("poison", "perturb", "gc_arm")}
        c["gcplan"] = list(r.gcs)
        return c

    def shrinks(self, case):
        case.pop("_bad", None)
        yield from gcplan_shrinks(case)
        if "file" in case:
            fs = rd_forms(case["text"])
            n = len(fs)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    if size < n:
                        yield dict(case, text="\n".join(fs[:i] + fs[i + size:]) + "\n")
                size //= 2
        else:
            yield from text_shrinks(case)
        # the same program under a denser schedule may fail with fewer forms
        yield from ()


STMTS = {
    "empty": "0", "list": "(list 1 2 3 4 5 6 7 8)", "string": '(string-append "abc" (number->string i))', "bigstr": "(make-string 5000 #\\x)", "vector": "(make-vector 100 i)",
    "bigvec": "(make-vector 3000 i)", "hash": '(let ((h (make-hash-table))) (hash-set! h i i) (hash-set! h "k" i) h)', "hashgrow": "(let ((h (make-hash-table 3))) (do ((j 0 (+ j 1))) ((= j 40)) (hash-set! h j (list j))) h)",
    "hashrem": "(let ((h (make-hash-table))) (hash-set! h 'a i) (hash-remove! h 'a) (hash-set! h 'a 2) h)", "closure": "(lambda () i)", "promise": "(let ((p (delay (list i)))) (force p))",
    "contfor": "(for-each (lambda (x) (call/cc (lambda (k) k))) (list 1 2 3))", "contlet": "(let ((r (call/cc (lambda (k) k)))) (list r))",
    "contthrow": "(catch #t (lambda () (call/cc (lambda (k) (throw 'a k)))) (lambda a a))", "contmap": "(map (lambda (x) (call/cc (lambda (k) k))) (list 1 2))",
    "contrec": "(let lp ((j 0)) (if (< j 5) (cons (call/cc (lambda (k) k)) (lp (+ j 1))) 1))", "contwind": "(dynamic-wind (lambda () 1) (lambda () (call/cc (lambda (k) k))) (lambda () 2))",
    "cont": "(call/cc (lambda (k) k))", "contesc": "(call/cc (lambda (k) (k i)))", "contdeep": "(let lp ((j 0)) (if (< j 20) (+ 1 (lp (+ j 1))) (call/cc (lambda (k) 1))))",
    "contkeep": "(set! keep (call/cc (lambda (k) k)))", "catch": "(catch 'x (lambda () (throw 'x 1 2)) (lambda a a))", "err": "(catch #t (lambda () (car 5)) (lambda a a))",
    "catchdeep": "(catch 'x (lambda () (let lp ((j 0)) (if (< j 15) (+ 1 (catch 'y (lambda () (lp (+ j 1))) (lambda a 1))) (throw 'x 1 2)))) (lambda a a))",
    "wind": "(dynamic-wind (lambda () 1) (lambda () 2) (lambda () 3))", "windthrow": "(catch 'x (lambda () (dynamic-wind (lambda () 1) (lambda () (throw 'x)) (lambda () 3))) (lambda a a))",
    "windesc": "(call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k 2)) (lambda () 3))))",
    "strport": "(call-with-output-string (lambda (p) (write (list 1 2 i) p)))", "strportthrow": "(catch #t (lambda () (call-with-output-string (lambda (p) (write (list 1 2 i) p) (throw 'x)))) (lambda a a))",
    "strin": '(read (open-input-string "(a b c)"))', "openout": "(let ((p (open-output-string))) (write i p) (get-output-string p))", "openoutdrop": '(let ((p (open-output-string))) (write "some text" p) 1)',
    "soft": '(make-soft-port (vector #f #f #f (lambda () #\\a) #f) "r")', "softw": '(write i (make-soft-port (vector (lambda (c) c) (lambda (s) s) (lambda () 1) #f (lambda () 1)) "w"))',
    "fileopen": '(open-input-file "/data.txt")', "fileclose": '(close-input-port (open-input-file "/data.txt"))', "fileread": '(let ((p (open-input-file "/data.txt"))) (let ((x (read p))) (close-input-port p) x))',
    "filereaddrop": '(let ((p (open-input-file "/data.txt"))) (read p))', "cwif": '(call-with-input-file "/data.txt" read)', "cwof": '(call-with-output-file "/o2.txt" (lambda (p) (write i p)))',
    "fileout": '(let ((p (open-output-file "/o.txt"))) (write i p) (close-output-port p))', "fileoutdrop": '(write i (open-output-file "/o.txt"))', "portmany": '(map (lambda (x) (open-input-file "/data.txt")) (list 1 2 3))',
    "cwifthrow": "(catch #t (lambda () (call-with-input-file \"/data.txt\" (lambda (p) (throw 'x)))) (lambda a a))", "cwofesc": '(call/cc (lambda (k) (call-with-output-file "/o3.txt" (lambda (p) (write i p) (k 1)))))',
    "eval": "(eval '(+ 1 2))", "map": "(map (lambda (x) (+ x 1)) (list 1 2 3))", "mapesc": "(call/cc (lambda (k) (map (lambda (x) (if (= x 2) (k 0) x)) (list 1 2 3))))", "apply": "(let ((l (list 1 2))) (apply + l))",
    "foreach": "(for-each (lambda (x) x) (list 1 2 3))", "foreachesc": "(call/cc (lambda (k) (for-each (lambda (x y) (if (= x 2) (k 0) x)) (list 1 2 3) (list 4 5 6))))",
    "foreachthrow": "(catch 'x (lambda () (for-each (lambda (x y) (throw 'x)) (list 1 2) (list 4 5))) (lambda a a))", "macro": "(mymac i)", "quasi": "`(1 ,i ,@(list 2 3))", "str2": '(list->string (string->list "abc"))',
    "symbol": '(string->symbol "abc")', "num": "(number->string i)", "let": "(let ((a 1) (b 2)) (+ a b))", "named": "(let lp ((j 0)) (if (< j 3) (lp (+ j 1)) j))",
    "letrec": "(letrec ((f (lambda (x) (if (= x 0) 0 (f (- x 1)))))) (f 3))", "do": "(do ((j 0 (+ j 1))) ((= j 3)) j)", "variable": "(make-variable i)", "load": '(load "/l.scm")',
    "loadfail": '(catch #t (lambda () (load "/bad.scm")) (lambda a a))', "values": "(call-with-values (lambda () (values 1 2)) (lambda (a b) a))", "case": "(case i ((1 2) 3) (else 4))", "alist": "(assoc-set! (list (cons 'a 1)) 'b 2)",
    "substr": '(substring "hello" 1 3)', "strset": '(let ((s (make-string 40 #\\a))) (string-set! s 1 #\\b) s)', "smob": "(scm-make-smob st i)", "nofile": '(catch #t (lambda () (open-input-file "/nope")) (lambda a a))',
    "cycle": "(let ((l (list 1 2))) (set-cdr! (cdr l) l) l)", "vcycle": "(let ((v (make-vector 10 0))) (vector-set! v 1 v) (vector-set! v 2 (list v)) v)", "hcycle": "(let ((h (make-hash-table))) (hash-set! h 'self h) h)",
    "clcycle": "(let ((b (list #f))) (set-car! b (lambda () b)) b)", "parseerr": '(catch #t (lambda () (read (open-input-string "(a b"))) (lambda a a))',
    "deepdata": "(let lp ((j 0)) (if (< j 50) (cons j (lp (+ j 1))) (quote ())))", "gensym": "(gensym)", "append": "(append (list 1 2 3) (list 4 5))", "vl": "(vector->list (list->vector (list 1 2 3)))",
    "replace": "(begin (set! keep (make-vector 50 (list i i))) 0)", "hashkeep": "(begin (hash-set! tab (remainder i 7) (list i (make-string 20 #\\a))) 0)", "listkeep": "(set! keep (list i (if (pair? keep) (car keep) 0)))",
}


# what takes much memory outside the heap for each object inside it
BIG = {"vec": "(make-vector 40000 i)", "str": "(make-string 200000 #\\a)", "sub": "(substring hugestr 1 200000)", "append": "(string-append hugestr \"x\")", "hash": "(make-hash-table 30000)", "outport": "(display hugestr (open-output-string))",
       "getout": "(get-output-string hugeout)", "inport": "(read-char (open-input-string hugestr))", "cont": "(let lp ((j 0)) (if (< j 60) (+ 1 (lp (+ j 1))) (call/cc (lambda (k) 1))))",
       "outchars": "(let ((p (open-output-string))) (do ((j 0 (+ j 1))) ((= j 30)) (display (substring hugestr 0 5000) p)))",
       "files": "(do ((j 0 (+ j 1))) ((= j 5)) (open-input-file \"/data.txt\"))", "outfiles": "(begin (open-output-file \"/o.txt\") (write-char #\\a (open-output-file \"/o2.txt\")))"}


class G02(Prop):
    id = "G02"
    cases = {"quick": 420, "thorough": 12000}
    chunk = 3
    rule = ("each case repeats a body of garbage-producing operations (a catalogue of every allocating facility plus generated data expressions) a few hundred times under seeded collections and I/O faults, "
            "at two lengths; after the final collection the number of live blocks, malloc bytes, the heap's high-water mark and the number of open files must not grow with the length, no block may be handed out "
            "while in use; in about a fifth of the cases the interpreter alone decides when to collect, files are limited, and memory in and beside the heap must stay under a fixed bound. Non-trivial: both runs finished and blocks were reclaimed; distinct by event-log digest")
    assumptions = ["the collector is conservative: slack of 0.2 blocks and 12 malloc bytes per repetition is allowed, confirmed at a third length"]

    def scenarios(self):
        nat = [{"stmts": [s], "lens": [1200], "knobs": {"natural": 1, "budget": 50000000, "cpu_s": 60, "malloc_peak": 1, "max_fd": 60}, "what": n} for n, s in sorted(BIG.items())]
        return nat + [{"stmts": [s], "lens": [150, 650, 1150], "knobs": {"gc_mode": 1, "gc_every": 500, "gc_max": 1000000, "poison": 1, "track": 1}, "what": n} for n, s in sorted(STMTS.items())]

    def gen(self, rng, idx, tier):
        if rng.random() < .2:
            # natural collections only: the heap must not grow for garbage
            big = rng.random() < .5
            st = [BIG[rng.choice(sorted(BIG))] for _ in range(rng.randint(1, 2))] if big else []
            st += [STMTS[rng.choice([n for n in sorted(STMTS) if n != "deepdata"])] for _ in range(rng.randint(0 if big else 1, 3))]
            return {"stmts": st, "lens": [1200 if big else 9000], "knobs": {"natural": 1, "budget": 50000000, "cpu_s": 60, "malloc_peak": 1, "max_fd": rng.choice([16, 60, 400])}}
        st = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .5:
                st.append(STMTS[rng.choice(sorted(STMTS))])
            else:
                g = gendata.Gen(rng, size=25)
                st.append("(catch #t (lambda () %s) (lambda a 0))" % g.e(rng.choice(["int", "li", "str", "vec", "la", "al"]), rng.choice([3, 4, 5]), [("i", "int")]))
        k = {"gc_mode": 1, "gc_every": rng.choice([150, 400, 900]), "gc_max": 1000000, "poison": rng.choice([0, 1, 1]), "track": 1, "seed": rng.getrandbits(31), "cpu_s": 40}
        if rng.random() < .5:
            st = ["(catch #t (lambda () %s) (lambda a 0))" % s if "set! keep" not in s else s for s in st]
            k.update({"io_mode": 1, "p_open_EMFILE": rng.choice([0, 50, 300]), "p_read_EIO": rng.choice([0, 100, 400]), "p_write_ENOSPC": rng.choice([0, 100, 400]), "p_close_EIO": rng.choice([0, 100, 400])})
        return {"stmts": st, "lens": [100, 400, 700], "knobs": k}

    def text(self, case, n):
        body = "".join("(define (body%d i) %s)\n" % (j, s) for j, s in enumerate(case["stmts"]))
        calls = " ".join("(body%d i)" % j for j in range(len(case["stmts"])))
        return gendata.PRE + "(define st (scm-make-smob-type \"x\" 0))\n(define keep 0)\n(define tab (make-hash-table))\n(define-macro (mymac x) (list '+ x 1))\n" + ("(define hugestr (make-string 200000 #\\b))\n(define hugeout (open-output-string))\n(display hugestr hugeout)\n" if case["knobs"].get("natural") else "") + body + \
            "(define times 0)\n(do ((i 0 (+ i 1))) ((= i %d)) %s (set! times (+ i 1)))\n(define (scrub j) (if (< j 300) (+ 1 (scrub (+ j 1))) 0))\n(set! keep (scrub 0))\n(gc)\n(gc)\n(emit 'done times)\n" % (n, calls)

    def spec(self, case, n):
        return {"files": {"/p.scm": self.text(case, n), "mod/alpha.scm": ""},
                "faulty": {"/data.txt": "(some data 1 2 3)", "/l.scm": "(define zz (list 1 2))", "/bad.scm": "(define zz (car 5))", "/t/1": "", "/t/2": "", "/t/3": "", "/t/4": ""},
                "args": ["pscm", "/p.scm"], "knobs": {k: v for k, v in dict({"cpu_s": 30, "budget": 20000000}, **case["knobs"]).items() if k != "natural"}}

    def evaluate(self, ctx, case):
        if case["knobs"].get("natural"):
            r = ctx.run(self.spec(case, case["lens"][0]))
            if r.kind != "exit" or b"done %d" % case["lens"][0] not in r.out:
                return Outcome("ended: the loop was not finished: %s %s" % (r.kind, r.err[-160:].decode("utf8", "replace")), False, r.digest)
            v = None
            if r.stat("mpeak") > 100 << 20:
                v = "growth: memory outside the heap reached %d bytes with a bounded live set (natural collections)" % r.stat("mpeak")
            if r.stat("heap") > 16 << 20:
                v = "growth: heap reached %d bytes with a bounded live set (natural collections)" % r.stat("heap")
            return Outcome(v, r.stat("allocs") < 100000, r.digest, {"natural": 1})
        rs = []
        dg = ""
        for n in case["lens"][:2]:
            r = ctx.run(self.spec(case, n))
            rs.append(r)
            dg = r.digest
            if r.viol:
                return Outcome("memory: " + r.viol[0], False, dg)
            if r.kind != "exit" or b"done %d" % n not in r.out:
                return Outcome("ended: %s at length %d: %s" % (r.kind, n, r.err[-160:].decode("utf8", "replace")), False, dg)
        v = self.grown(rs[0], rs[1], case["lens"][1] - case["lens"][0])
        if v:
            r = ctx.run(self.spec(case, case["lens"][2]))
            v2 = self.grown(rs[1], r, case["lens"][2] - case["lens"][1])
            if not v2 or v2.split(" ")[1] != v.split(" ")[1]:
                v = None
        return Outcome(v, rs[1].stat("reclaimed") == 0, dg, {"fault-runs": 1 if rs[1].faults else 0})

    def grown(self, a, b, dn):
        d = lambda k: b.stat(k) - a.stat(k)
        if d("open") > max(2, dn * .05):
            return "growth: open files %d -> %d in %d repetitions" % (a.stat("open"), b.stat("open"), dn)
        if d("live") > dn * .2 + 30:
            return "growth: live-blocks %d -> %d in %d repetitions" % (a.stat("live"), b.stat("live"), dn)
        if d("malloc") > dn * 12 + 4000:
            return "growth: malloc %d -> %d bytes in %d repetitions" % (a.stat("malloc"), b.stat("malloc"), dn)
        if d("hwm") > dn * 40 + 60000:
            return "growth: heap high-water mark %d -> %d bytes in %d repetitions" % (a.stat("hwm"), b.stat("hwm"), dn)
        return None

    def shrinks(self, case):
        st = case["stmts"]
        if len(st) > 1:
            for i in range(len(st)):
                yield dict(case, stmts=st[:i] + st[i + 1:])
        io = [k for k in case["knobs"] if k.startswith("p_")]
        if io:
            yield dict(case, knobs={k: v for k, v in case["knobs"].items() if k not in io and k != "io_mode"})
            for k in io:
                yield dict(case, knobs={x: v for x, v in case["knobs"].items() if x != k})
        yield from text_shrinks(case, "stmts")


class G03(Prop):
    id = "G03"
    cases = {"quick": 360, "thorough": 10000}
    chunk = 3
    level = "exploration"
    rule = ("each case builds growing live data (lists, vectors, strings, closures, hash tables, continuations) while the k-th request for heap memory, or every request past a limit, is refused, or segments are scattered "
            "with holes; the run must either finish with the same output as an unrestricted run or stop with a FATAL diagnostic and SIGABRT after a prefix of it, and must not stop when a twin that collects all the time needs clearly less heap than it had. Non-trivial: the heap had to grow; distinct by event-log digest")

    # each operation keeps (or drops) a list of w cells built inside one primitive, so the heap grows quickly
    GROW = {
        "cells": "(set! live (cons (bulk i) live))", "strings": "(set! live (cons (string->list (make-string w #\\a)) live))", "vecs": "(set! live (cons (vector i (bulk i) 3) live))",
        "clos": "(set! live (cons (let ((a i) (b (bulk i))) (lambda () (+ a (length b)))) live))", "hash": "(hash-set! tab i (bulk i))",
        "conts": "(set! live (cons (let ((b (bulk i))) (let ((r (call/cc (lambda (k) k)))) (if (procedure? r) (list r b) b))) live))",
        "garbage": "(list (bulk i) (bulk (+ i 1)))", "syms": "(set! live (cons (list (string->symbol (string-append \"s\" (number->string i))) (bulk i)) live))", "proms": "(set! live (cons (let ((b (bulk i))) (delay (length b))) live))",
        "append": "(set! live (cons (append (bulk i) (bulk 1)) live))", "replace": "(begin (set! live (cons (bulk i) live)) (if (= 0 (remainder i 3)) (set! live (cdr live)) 0))",
        "map": "(set! live (cons (map (lambda (x) (cons x i)) (bulk 3)) live))", "nest": "(set! live (list (bulk i) live))", "alist": "(set! live (cons (list i (map cons (bulk i) (bulk 2))) live))",
    }
    SUM = """(define (probe x d) (cond ((pair? x) (if (> d 3) 1 (+ (list-length x) (probe (car x) (+ d 1)) (if (pair? (cdr x)) (probe (car (cdr x)) (+ d 1)) 2)))) ((number? x) x) ((vector? x) (probe (vector-ref x 1) d)) ((procedure? x) 5) (else 1)))
(define (list-length x) (do ((n 0 (+ n 1)) (x x (cdr x))) ((or (not (pair? x)) (> n 4)) n)))
(define (total l n) (do ((l l (cdr l)) (n 0 (+ n 1)) (acc 0 (remainder (+ (* acc 7) (probe (car l) 0)) 100003))) ((null? l) (list n acc))))"""

    def gen(self, rng, idx, tier):
        kinds = rng.sample(sorted(self.GROW), rng.choice([1, 1, 2]))
        n = rng.choice([150, 300, 500])
        if "map" in kinds or "alist" in kinds:
            n //= 4
        k = {"budget": 60000000, "cpu_s": 60}
        x = rng.random()
        if x < .35:
            k["mmap_fail_at"] = rng.choice([2, 2, 3, 3, 4, 5])
        elif x < .6:
            k["heap_cap_mb"] = rng.choice([8, 12, 16, 20, 28])
        elif x < .9:
            k["seg_gap_kb"] = rng.choice([4, 64, 1024, 65536])
            if rng.random() < .5:
                k["mmap_fail_at"] = rng.choice([2, 3, 4])
        else:
            k["mmap_fail_at"] = 1
        if rng.random() < .5:
            k["seg_dir"] = rng.choice([1, 2, 3, 3])
            if k["seg_dir"] == 3:
                k["seg_seed"] = rng.randrange(100)
        if rng.random() < .4:
            k.update({"gc_mode": 1, "gc_rate": rng.choice([5, 20]), "gc_max": 60, "poison": 1, "seed": rng.getrandbits(31)})
        case = {"kinds": kinds, "n": n, "w": rng.choice([200, 300, 600]), "knobs": k}
        if rng.random() < .6:  # live data first, then as much that is dropped at once
            case["churn"] = n * rng.choice([1, 2, 3])
            case["n"] = n // rng.choice([2, 3, 4, 6])
        return case

    def scenarios(self):
        out = []
        for kind in ("cells", "hash", "vecs"):
            out.append({"kinds": [kind], "n": 80, "churn": 600, "w": 400, "knobs": {"mmap_fail_at": 2, "budget": 60000000, "cpu_s": 60}})
        for kind in ("cells", "strings", "hash", "conts"):
            out.append({"kinds": [kind], "n": 500, "w": 400, "knobs": {"mmap_fail_at": 2, "budget": 60000000, "cpu_s": 60}})
            out.append({"kinds": [kind], "n": 500, "w": 400, "knobs": {"seg_gap_kb": 512, "budget": 60000000, "cpu_s": 60}})
            out.append({"kinds": [kind], "n": 500, "w": 400, "knobs": {"seg_dir": 1, "budget": 60000000, "cpu_s": 60}})
            for seed in (36, 63):  # the third segment between the first two, above the first and below it
                out.append({"kinds": [kind], "n": 800, "w": 400, "knobs": {"seg_dir": 3, "seg_seed": seed, "budget": 60000000, "cpu_s": 60}})
        out.append({"kinds": ["garbage"], "n": 500, "w": 400, "knobs": {"heap_cap_mb": 8, "budget": 60000000, "cpu_s": 60}, "must": 1})
        return out

    def text(self, case):
        ops = " ".join(self.GROW[k] for k in case["kinds"])
        return gendata.PRE + """
(define live '())
(define w %d)
(define tab (make-hash-table))
(define (bulk i) (vector->list (make-vector w i)))
%s
(do ((i 0 (+ i 1))) ((= i %d)) (begin %s (if (= 0 (remainder i 20)) (emit 'at i) 0)))
(define save live)
(do ((i 0 (+ i 1))) ((= i %d)) (begin %s (set! live save) (if (= 0 (remainder i 40)) (emit 'at i) 0)))
(emit 'total (total live 0))
(emit 'tab (hash-fold (lambda (k v acc) (remainder (+ acc k (probe v 0)) 100003)) 0 tab))
(emit 'first (if (pair? live) (probe (car live) 0) 'none))
(gc)
(emit 'total (total live 0))
""" % (case.get("w", 100), self.SUM, case["n"], ops, case.get("churn", 0), ops)

    def evaluate(self, ctx, case):
        spec = {"files": {"/p.scm": self.text(case)}, "args": ["pscm", "/p.scm"]}
        base = ctx.run(dict(spec, knobs={"budget": 60000000, "cpu_s": 60}))
        if base.kind != "exit":
            return Outcome(None, True, base.digest, {"base-" + base.kind: 1})
        r = ctx.run(dict(spec, knobs=case["knobs"]))
        v = None
        pr = {r.kind: 1}
        if r.kind == "exit":
            if r.out != base.out:
                v = diff(base.text(), r.text())
            elif r.faults and r.status == 0 and case["knobs"].get("mmap_fail_at") == 1:
                v = "refused: the first heap request was refused and the program still ran"
        elif r.kind == "signal:SIGABRT":
            pr["diagnosed"] = 1
            if b"FATAL" not in r.err:
                v = "silent: aborted without a diagnostic: %r" % r.err[-120:]
            elif not r.faults:
                v = "early: gave up although no request for memory was refused: %r" % r.err[-120:]
            elif not base.out.startswith(r.out):
                v = "output: what was printed before the abort is not a prefix of the unrestricted output"
            elif case.get("churn"):  # what the program can run in: a run that collects all the time
                pr["measured"] = 1
                t = ctx.run(dict(spec, knobs={"budget": 60000000, "cpu_s": 200, "gc_mode": 1, "gc_every": 8000, "gc_max": 100000, "track": 1}))
                had = int(r.faults[0].split()[3])
                if t.kind == "exit" and t.stat("hwm") * 1.25 + (1 << 20) < had:
                    v = "early: gave up with a heap of %d bytes although it runs in %d" % (had, t.stat("hwm"))
        else:
            v = "ended: %s when memory ran out" % r.kind
        if case.get("must") and r.kind != "exit":
            v = "early: a program whose live data fits the heap did not finish: %r" % r.err[-120:]
        return Outcome(v, base.stat("mmaps") < 2 and not r.faults, r.digest, pr)

    def shrinks(self, case):
        if len(case["kinds"]) > 1:
            for k in case["kinds"]:
                yield dict(case, kinds=[k])
        kn = case["knobs"]
        if "gc_mode" in kn:
            yield dict(case, knobs={k: v for k, v in kn.items() if not k.startswith("gc_") and k not in ("poison",)})
        if case["n"] > 20:
            yield dict(case, n=case["n"] // 2)
        if case.get("churn", 0) > 20:
            yield dict(case, churn=case["churn"] // 2)


PROPS = [G01(), G02(), G03()]

"""Executable reference model: a small Scheme with first-class continuations.

It is written from R5RS and the pscm documentation, not from the C++ sources:
explicit continuation frames in a linked list, an immutable winder list, catches
as frames.  Programs are s-expressions built by the generators (vf/gen.py).
"""


class Sym(str):
    __slots__ = ()

    def __repr__(self):
        return "'" + str(self)


_syms = {}


def S(n):
    s = _syms.get(n)
    if s is None:
        s = _syms[n] = Sym(n)
    return s


class Str:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Char:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, a, d):
        self.car = a
        self.cdr = d


class Nil:
    def __repr__(self):
        return "()"


NIL = Nil()


class Unspec:
    pass


UNSPEC = Unspec()


class Eof:
    pass


EOF = Eof()


class Vec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Hash:
    __slots__ = ("kind", "d")

    def __init__(self):
        self.d = {}


class Closure:
    __slots__ = ("params", "rest", "body", "env", "name")

    def __init__(self, params, rest, body, env):
        self.params, self.rest, self.body, self.env = params, rest, body, env
        self.name = None


class Prim:
    __slots__ = ("name", "fn", "ctl")

    def __init__(self, name, fn, ctl=False):
        self.name, self.fn, self.ctl = name, fn, ctl


class Cont:
    __slots__ = ("k", "winders")

    def __init__(self, k, winders):
        self.k, self.winders = k, winders


class Promise:
    __slots__ = ("expr", "env", "done", "value", "serial")

    def __init__(self, expr, env):
        self.expr, self.env, self.done, self.value = expr, env, False, None


class Env:
    __slots__ = ("d", "up")

    def __init__(self, d, up):
        self.d, self.up = d, up

    def find(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e
            e = e.up
        return None


class SchemeError(Exception):
    """Raised by a primitive; becomes a throw."""

    def __init__(self, key, args=()):
        self.key, self.args_ = key, args


class OutOfFuel(Exception):
    pass


class Misuse(Exception):
    """The program is outside the language the model describes (a candidate of a minimiser)."""


def need(ok):
    if not ok:
        raise Misuse()


def isproc(*fs):
    return all(isinstance(f, (Closure, Prim, Cont)) for f in fs)


def islist(x):
    while isinstance(x, Pair):
        x = x.cdr
    return x is NIL


ERR = S("error")  # the key of an implementation-raised error


def mklist(xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


def pylist(p):
    r = []
    while isinstance(p, Pair):
        r.append(p.car)
        p = p.cdr
    return r


CHARNAMES = {" ": "space", "\n": "newline", "\t": "tab"}


def show(v, w=True):
    """write (w) or display representation"""
    need(not isinstance(v, Multi))
    if v is True:
        return "#t"
    if v is False:
        return "#f"
    if isinstance(v, Sym):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Str):
        return '"%s"' % v.v.replace("\\", "\\\\").replace('"', '\\"') if w else v.v
    if isinstance(v, Char):
        return "#\\" + CHARNAMES.get(v.v, v.v) if w else v.v
    if v is NIL:
        return "()"
    if isinstance(v, Pair):
        out = []
        while isinstance(v, Pair):
            out.append(show(v.car, w))
            v = v.cdr
        return "(" + " ".join(out) + ("" if v is NIL else " . " + show(v, w)) + ")"
    if isinstance(v, Vec):
        return "#(" + " ".join(show(x, w) for x in v.v) + ")"
    if isinstance(v, Eof):
        return "#<eof>"
    return "#<%s>" % type(v).__name__


def src(x):
    """program text of a generated s-expression (python lists, Sym, int, bool, Str...)"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "quote":
            return "'" + src(x[1])
        return "(" + " ".join(src(i) for i in x) + ")"
    if isinstance(x, Sym):
        return str(x)
    return show(x, True)


# Frames: tuples (fn, data, next).  fn(machine, data, value, next)
class Machine:
    def __init__(self, fuel=200000):
        self.fuel = fuel
        self.out = []
        self.winders = None  # linked: (before, after, up, depth, continuation)
        self.glob = Env({}, None)
        self.failing = set()
        self.steps = 0
        self.mode = 0
        self.x = self.v = self.env = self.k = None
        self.probes = {}
        self.macros = {}
        self.files = {}
        for n, p in PRIMS.items():
            self.glob.d[S(n)] = Prim(n, *p)

    def probe(self, n):
        self.probes[n] = self.probes.get(n, 0) + 1

    # -- driver
    def run_form(self, x):
        """Evaluate one top-level form; returns ('ok', v) or ('throw', key)."""
        self.eval(x, self.glob, None)
        return self.loop()

    def eval(self, x, env, k):
        self.mode, self.x, self.env, self.k = 0, x, env, k

    def ret(self, v, k):
        self.mode, self.v, self.k = 1, v, k

    def loop(self):
        while True:
            self.steps += 1
            if self.steps > self.fuel:
                raise OutOfFuel()
            try:
                if self.mode == 0:
                    self.step(self.x, self.env, self.k)
                else:
                    k = self.k
                    if k is None:
                        return ("ok", self.v)
                    k[0](self, k[1], self.v, k[2])
            except SchemeError as e:
                r = self.throw(e.key, e.args_, self.k)
                if r is not None:
                    return r

    def step(self, x, env, k):
        if isinstance(x, Sym):
            e = env.find(x)
            if e is None:
                self.probe("unbound")
                raise SchemeError(ERR)
            self.ret(e.d[x], k)
        elif isinstance(x, list):
            h = x[0]
            need(isinstance(h, (Sym, list, Quoted)))
            f = FORMS.get(h) if isinstance(h, Sym) else None
            if isinstance(h, Sym) and h in self.macros:
                self.apply(self.macros[h], [datum(i) for i in x[1:]], (k_expand, env, k))
            elif f:
                f(self, x, env, k)
            else:
                self.eval(h, env, (k_fn, (x, env), k))
        else:
            self.ret(x, k)

    def body(self, xs, env, k):
        if len(xs) == 1:
            self.eval(xs[0], env, k)
        else:
            self.eval(xs[0], env, (k_seq, (xs, 1, env), k))

    def apply(self, f, args, k):
        if isinstance(f, Closure):
            d = dict(zip(f.params, args))
            if f.rest is not None:
                if len(args) < len(f.params):
                    raise SchemeError(ERR)
                d[f.rest] = mklist(args[len(f.params):])
            elif len(args) != len(f.params):
                raise SchemeError(ERR)
            self.body(f.body, Env(d, f.env), k)
        elif isinstance(f, Prim):
            self.k = k
            if f.ctl:
                f.fn(self, args, k)
            else:
                self.ret(f.fn(self, *args), k)
        elif isinstance(f, Cont):
            self.probe("cont-invoke")
            v = UNSPEC if not args else args[0] if len(args) == 1 else Multi(list(args))
            self.rewind(f.winders, (k_jump, (f, v), f.k))
        else:
            raise Misuse()

    # -- winders.  The guards of a transition run one at a time, each with the winder
    #    list of its surrounding extent.
    def rewind(self, target, k):
        """Move to winder list `target`, then return to k."""
        here = self.winders
        common, h = target, here
        while depth(common) > depth(h):
            common = common[2]
        while depth(h) > depth(common):
            h = h[2]
        while h is not common:
            h, common = h[2], common[2]
        todo = []
        w = here
        while w is not common:
            todo.append(("out", w))
            w = w[2]
        ins = []
        w = target
        while w is not common:
            ins.append(("in", w))
            w = w[2]
        todo += reversed(ins)
        self.step_winds(todo, 0, k)

    def step_winds(self, todo, i, k):
        if i == len(todo):
            self.ret(UNSPEC, k)
            return
        what, w = todo[i]
        self.probe("wind-" + what)
        self.winders = w[2]
        if what == "out":
            self.apply(w[1], [], (k_winds, (todo, i + 1, None, w), k))
        else:
            self.apply(w[0], [], (k_winds, (todo, i + 1, w, w), k))

    def throw(self, key, args, k):
        """returns a final result if there is no catch, else sets the machine up"""
        f = k
        while f is not None:
            if f[0] is k_catch and (f[1][0] is True or f[1][0] == key):
                break
            if f[0] is k_winds:
                # a guard run by a transition: the catches around its dynamic-wind
                self.probe("guard-throw-in" if f[1][2] is not None else "guard-throw-out")
                f = f[1][3][4]
                continue
            f = f[2]
        self.probe("throw")
        if f is None:
            # the top-level catch of the host: winders are left
            self.rewind(None, (k_toplevel_throw, key, None))
            return None
        tag, handler, winders = f[1]
        self.rewind(winders, (k_handler, (handler, key, args), f[2]))
        return None


def depth(w):
    return 0 if w is None else w[3]


def k_fn(m, d, v, k):
    x, env = d
    if len(x) == 1:
        m.apply(v, [], k)
    else:
        m.eval(x[1], env, (k_arg, (v, x, 2, env, None), k))


def k_arg(m, d, v, k):
    f, x, i, env, done = d
    done = (v, done)
    if i < len(x):
        m.eval(x[i], env, (k_arg, (f, x, i + 1, env, done), k))
    else:
        args = []
        while done is not None:
            args.append(done[0])
            done = done[1]
        args.reverse()
        m.apply(f, args, k)


def k_seq(m, d, v, k):
    xs, i, env = d
    if i == len(xs) - 1:
        m.eval(xs[i], env, k)
    else:
        m.eval(xs[i], env, (k_seq, (xs, i + 1, env), k))


def k_if(m, d, v, k):
    x, env = d
    if v is not False:
        m.eval(x[2], env, k)
    elif len(x) > 3:
        m.eval(x[3], env, k)
    else:
        m.ret(UNSPEC, k)


def k_set(m, d, v, k):
    x, env = d
    e = env.find(x)
    if e is None:
        m.probe("unbound")
        raise SchemeError(ERR)
    e.d[x] = v
    m.ret(UNSPEC, k)


def k_def(m, d, v, k):
    m.glob.d[d] = v
    if isinstance(v, Closure) and v.name is None:
        v.name = d
    m.ret(UNSPEC, k)


def k_catch(m, d, v, k):
    m.ret(v, k)


def k_handler(m, d, v, k):
    handler, key, args = d
    m.apply(handler, [key] + list(args), k)


def k_toplevel_throw(m, d, v, k):
    m.ret(("uncaught", d), None)


def k_jump(m, d, v, k):
    f, val = d
    m.winders = f.winders
    m.ret(val, f.k)


def k_winds(m, d, v, k):
    todo, i, w, _ = d
    if w is not None:
        m.winders = w
    m.step_winds(todo, i, k)


def k_dw1(m, d, v, k):
    b, t, a = d
    w = (b, a, m.winders, depth(m.winders) + 1, k)
    m.winders = w
    m.apply(t, [], (k_dw2, w, k))


def k_dw2(m, w, v, k):
    m.winders = w[2]
    m.apply(w[1], [], (k_value, v, k))


def k_value(m, d, v, k):
    m.ret(d, k)


def k_force(m, p, v, k):
    if not p.done:
        p.done, p.value = True, v
    else:
        m.probe("force-lost")
    m.ret(p.value, k)


def k_map(m, d, v, k):
    f, lists, done = d
    done = (v, done)
    step_map(m, f, lists, done, k)


def step_map(m, f, lists, done, k):
    if any(not isinstance(l, Pair) for l in lists):
        r = NIL
        while done is not None:
            r = Pair(done[0], r)
            done = done[1]
        m.ret(r, k)
    else:
        m.apply(f, [l.car for l in lists], (k_map, (f, [l.cdr for l in lists], done), k))


def k_each(m, d, v, k):
    f, lists = d
    step_each(m, f, lists, k)


def step_each(m, f, lists, k):
    if any(not isinstance(l, Pair) for l in lists):
        m.ret(UNSPEC, k)
    else:
        m.apply(f, [l.car for l in lists], (k_each, (f, [l.cdr for l in lists]), k))


def k_cwv(m, d, v, k):
    m.apply(d, pylist(v) if isinstance(v, Multi) is False else v.v, k)


class Multi:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


# -- special forms
def wellformed(x):
    """whether an expression has the shape its keyword asks for"""
    def var(v):
        return isinstance(v, Sym) and v != "."

    def all_(xs):
        return all(wellformed(i) for i in xs)

    def binds(bs):
        return isinstance(bs, list) and all(isinstance(b, list) and len(b) == 2 and var(b[0]) and wellformed(b[1]) for b in bs)

    def params(ps):
        return isinstance(ps, Sym) or isinstance(ps, list) and all(isinstance(p, Sym) for p in ps) and (S(".") not in ps[:-2])
    if not isinstance(x, list):
        return x != "." and x not in FORMS if isinstance(x, Sym) else True
    if not x:
        return False
    h, n = x[0], len(x)
    if h == "eval" and n == 2 and isinstance(x[1], list) and len(x[1]) == 2 and x[1][0] == "quote":
        return wellformed(x[1][1])
    if not isinstance(h, Sym) or h not in FORMS:
        return (isinstance(h, (Sym, list))) and all_(x)
    if h == "quote":
        return n == 2
    if h == "quasiquote":
        return n == 2 and all_(holes(x[1], []))
    if h in ("lambda", "define-macro"):
        return n > 2 and params(x[1]) and all_(x[2:])
    if h == "define":
        return n > 2 and (n == 3 and var(x[1]) or isinstance(x[1], list) and params(x[1])) and all_(x[2:])
    if h == "set!":
        return n == 3 and var(x[1]) and wellformed(x[2])
    if h == "let" and n > 3 and var(x[1]):
        return binds(x[2]) and all_(x[3:])
    if h in ("let", "let*", "letrec"):
        return n > 2 and binds(x[1]) and all_(x[2:])
    if h == "if":
        return n in (3, 4) and all_(x[1:])
    if h == "delay":
        return n == 2 and all_(x[1:])
    if h in ("and", "or", "begin"):
        return n > 1 and all_(x[1:])
    if h == "cond":
        return n > 1 and all(isinstance(c, list) and len(c) > 1 and all_([i for i in c if i not in ("else", "=>")]) for c in x[1:])
    if h == "case":
        return n > 2 and wellformed(x[1]) and all(isinstance(c, list) and len(c) > 1 and (c[0] == "else" or isinstance(c[0], list)) and all_(c[1:]) for c in x[2:])
    if h == "do":
        return n > 2 and isinstance(x[1], list) and all(isinstance(b, list) and len(b) in (2, 3) and var(b[0]) and all_(b[1:]) for b in x[1]) and isinstance(x[2], list) and x[2] and all_(x[2]) and all_(x[3:])
    return True


def f_quote(m, x, env, k):
    m.ret(datum(x[1]), k)


def datum(x):
    if isinstance(x, list):
        return mklist([datum(i) for i in x])
    return x.v if isinstance(x, Quoted) else x


def f_if(m, x, env, k):
    m.eval(x[1], env, (k_if, (x, env), k))


def f_define(m, x, env, k):
    if isinstance(x[1], list):
        c = mkclosure(x[1][1:], x[2:], env)
        k_def(m, x[1][0], c, k)
    else:
        m.eval(x[2], env, (k_def, x[1], k))


def mkclosure(params, body, env):
    if isinstance(params, Sym):
        return Closure([], params, body, env)
    if S(".") in params:
        i = params.index(S("."))
        return Closure(params[:i], params[i + 1], body, env)
    return Closure(params, None, body, env)


def f_lambda(m, x, env, k):
    m.ret(mkclosure(x[1], x[2:], env), k)


def f_set(m, x, env, k):
    m.eval(x[2], env, (k_set, (x[1], env), k))


def f_begin(m, x, env, k):
    m.body(x[1:], env, k)


def f_let(m, x, env, k):
    if isinstance(x[1], Sym):
        name, binds, body = x[1], x[2], x[3:]
        e = Env({name: False}, env)
        c = mkclosure([b[0] for b in binds], body, e)
        e.d[name] = c
        m.eval([Quoted(c)] + [b[1] for b in binds], env, k)
    else:
        c = mkclosure([b[0] for b in x[1]], x[2:], env)
        m.eval([Quoted(c)] + [b[1] for b in x[1]], env, k)


class Quoted:
    """an already evaluated operator"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


_old_step = Machine.step


def _step(self, x, env, k):
    if isinstance(x, Quoted):
        self.ret(x.v, k)
    else:
        _old_step(self, x, env, k)


Machine.step = _step


def f_letstar(m, x, env, k):
    if len(x[1]) <= 1:
        f_let(m, [x[0], x[1]] + x[2:], env, k)
    else:
        f_let(m, [x[0], [x[1][0]], [S("let*"), x[1][1:]] + x[2:]], env, k)


def f_letrec(m, x, env, k):
    e = Env({b[0]: False for b in x[1]}, env)
    m.body([[S("set!"), b[0], b[1]] for b in x[1]] + x[2:], e, k)


def f_and(m, x, env, k):
    if len(x) == 1:
        m.ret(True, k)
    elif len(x) == 2:
        m.eval(x[1], env, k)
    else:
        m.eval(x[1], env, (k_and, (x, env), k))


def k_and(m, d, v, k):
    x, env = d
    if v is False:
        m.ret(v, k)
    else:
        f_and(m, [x[0]] + x[2:], env, k)


def f_or(m, x, env, k):
    if len(x) == 1:
        m.ret(False, k)
    elif len(x) == 2:
        m.eval(x[1], env, k)
    else:
        m.eval(x[1], env, (k_or, (x, env), k))


def k_or(m, d, v, k):
    x, env = d
    if v is not False:
        m.ret(v, k)
    else:
        f_or(m, [x[0]] + x[2:], env, k)


def f_cond(m, x, env, k):
    if len(x) == 1:
        m.ret(UNSPEC, k)
    elif x[1][0] == "else":
        m.body(x[1][1:], env, k)
    else:
        m.eval(x[1][0], env, (k_cond, (x, env), k))


def k_cond(m, d, v, k):
    x, env = d
    if v is not False and len(x[1]) == 3 and x[1][1] == "=>":
        m.eval(x[1][2], env, (k_arrow, v, k))
    elif v is not False:
        m.body(x[1][1:], env, k)
    else:
        f_cond(m, [x[0]] + x[2:], env, k)


def k_arrow(m, d, v, k):
    m.apply(v, [d], k)


def f_delay(m, x, env, k):
    m.ret(Promise(x[1], env), k)


def f_do(m, x, env, k):
    """(do ((v init step) ...) (test res ...) body ...) with a fresh frame per call"""
    binds, test, body = x[1], x[2], x[3:]
    loop = Env({}, env)
    name = S("%do-loop")
    c = Closure([b[0] for b in binds], None, [[S("if"), test[0], [S("begin")] + (test[1:] or [True]), [S("begin")] + body + [[name] + [b[2] if len(b) > 2 else b[0] for b in binds]]]], loop)
    loop.d[name] = c
    m.eval([Quoted(c)] + [b[1] for b in binds], env, k)


def f_case(m, x, env, k):
    m.eval(x[1], env, (k_case, (x, env), k))


def k_case(m, d, v, k):
    x, env = d
    for cl in x[2:]:
        if cl[0] == "else" or any(eqv(datum(q), v) for q in cl[0]):
            m.body(cl[1:], env, k)
            return
    m.ret(UNSPEC, k)


def holes(t, out):
    """the expressions of a quasiquote template, left to right"""
    if isinstance(t, list):
        if len(t) == 2 and t[0] in ("unquote", "unquote-splicing"):
            out.append(t[1])
        else:
            for i in t:
                holes(i, out)
    return out


def fill(t, vals):
    if isinstance(t, list):
        if len(t) == 2 and t[0] == "unquote":
            return vals.pop(0)
        items = []
        for i in t:
            if isinstance(i, list) and len(i) == 2 and i[0] == "unquote-splicing":
                items += pylist(vals.pop(0))
            else:
                items.append(fill(i, vals))
        return mklist(items)
    return t


def f_quasi(m, x, env, k):
    hs = holes(x[1], [])
    quasi_next(m, x[1], hs, 0, env, None, k)


def k_quasi(m, d, v, k):
    t, hs, i, env, done = d
    quasi_next(m, t, hs, i, env, (v, done), k)


def quasi_next(m, t, hs, i, env, done, k):
    if i < len(hs):
        m.eval(hs[i], env, (k_quasi, (t, hs, i + 1, env, done), k))
    else:
        vals = []
        while done is not None:
            vals.append(done[0])
            done = done[1]
        m.ret(fill(t, vals[::-1]), k)


def undatum(v):
    """a value as an expression"""
    if isinstance(v, Pair):
        xs = []
        p = v
        while isinstance(p, Pair):
            xs.append(undatum(p.car))
            p = p.cdr
        return xs if p is NIL else Quoted(v)  # (a . b) only ever occurs quoted
    if v is NIL:
        return []
    if not isinstance(v, (Sym, int, Str, Char)):
        return Quoted(v)
    return v


def f_defmacro(m, x, env, k):
    m.macros[x[1][0]] = mkclosure(x[1][1:], x[2:], env)
    m.ret(UNSPEC, k)


def k_expand(m, env, v, k):
    m.probe("macro")
    m.eval(undatum(v), env, k)


def p_eval(m, a, k):
    m.probe("eval")
    m.eval(undatum(a[0]), m.glob, k)


def p_load(m, a, k):
    m.probe("load")
    f = m.files.get(a[0].v)
    if not f:
        raise SchemeError(ERR)
    m.body(f, m.glob, k)


def p_hfold(m, a, k):
    f, init, h = a
    need(isproc(f) and isinstance(h, Hash))
    step_fold(m, f, list(h.d.values()), init, k)


def p_mmap(m, a, k):
    f, h = a
    need(isproc(f) and isinstance(h, Hash))
    step_mmap(m, f, list(h.d.values()), None, k)


def k_mmap(m, d, v, k):
    step_mmap(m, d[0], d[1], (v, d[2]), k)


def step_mmap(m, f, items, done, k):
    if items:
        m.apply(f, list(items[0]), (k_mmap, (f, items[1:], done), k))
    else:
        r = NIL
        while done is not None:
            r = Pair(done[0], r)
            done = done[1]
        m.ret(r, k)


def p_modtab(m, name):
    """the one module programs look at: three variables of equal value"""
    need(islist(name) and [str(x) for x in pylist(name)] == ["mtab"])
    h = Hash()
    h.d = {i: (S("mv%d" % i), 7) for i in range(3)}
    return h


def k_fold(m, d, v, k):
    step_fold(m, d[0], d[1], v, k)


def step_fold(m, f, items, acc, k):
    if items:
        m.apply(f, [items[0][0], items[0][1], acc], (k_fold, (f, items[1:]), k))
    else:
        m.ret(acc, k)


FORMS = {S(n): f for n, f in {
    "case": f_case, "quasiquote": f_quasi, "define-macro": f_defmacro,
    "quote": f_quote, "if": f_if, "define": f_define, "lambda": f_lambda, "set!": f_set, "begin": f_begin, "let": f_let,
    "let*": f_letstar, "letrec": f_letrec, "and": f_and, "or": f_or, "cond": f_cond, "delay": f_delay, "do": f_do}.items()}


# -- primitives
def p_callcc(m, a, k):
    m.probe("callcc")
    need(isproc(*a) and len(a) == 1)
    m.apply(a[0], [Cont(k, m.winders)], k)


def p_dynwind(m, a, k):
    m.probe("dynamic-wind")
    need(isproc(*a) and len(a) == 3)
    m.apply(a[0], [], (k_dw1, tuple(a), k))


def p_catch(m, a, k):
    need(len(a) == 3 and isproc(*a[1:]) and (a[0] is True or isinstance(a[0], Sym)))
    m.apply(a[1], [], (k_catch, (a[0], a[2], m.winders), k))


def p_throw(m, a, k):
    need(a and isinstance(a[0], Sym))
    r = m.throw(a[0], a[1:], k)


def p_force(m, a, k):
    p = a[0]
    if not isinstance(p, Promise):
        raise SchemeError(ERR)
    if p.done:
        m.ret(p.value, k)
    else:
        m.probe("force")
        m.eval(p.expr, p.env, (k_force, p, k))


def p_apply(m, a, k):
    need(len(a) > 1 and isproc(a[0]) and islist(a[-1]))
    m.apply(a[0], list(a[1:-1]) + pylist(a[-1]), k)


def p_map(m, a, k):
    need(len(a) > 1 and isproc(a[0]) and len({len(pylist(l)) for l in a[1:] if islist(l)}) == 1 and all(islist(l) for l in a[1:]))
    step_map(m, a[0], list(a[1:]), None, k)


def p_each(m, a, k):
    need(len(a) > 1 and isproc(a[0]) and len({len(pylist(l)) for l in a[1:] if islist(l)}) == 1 and all(islist(l) for l in a[1:]))
    step_each(m, a[0], list(a[1:]), k)


def p_values(m, a, k):
    m.ret(Multi(list(a)), k)


def p_cwv(m, a, k):
    need(len(a) == 2 and isproc(*a))
    m.apply(a[0], [], (k_cwv2, a[1], k))


def k_cwv2(m, f, v, k):
    m.apply(f, v.v if isinstance(v, Multi) else [v], k)


def num(*xs):
    for x in xs:
        if not isinstance(x, int) or isinstance(x, bool):
            raise SchemeError(ERR)


def p_add(m, *a):
    num(*a)
    return sum(a)


def p_sub(m, a, *b):
    num(a, *b)
    return a - sum(b) if b else -a


def p_mul(m, *a):
    num(*a)
    r = 1
    for x in a:
        r *= x
    return r


def p_car(m, a):
    if not isinstance(a, Pair):
        raise SchemeError(ERR)
    return a.car


def p_cdr(m, a):
    if not isinstance(a, Pair):
        raise SchemeError(ERR)
    return a.cdr


def p_setcar(m, a, b):
    a.car = b
    return UNSPEC


def p_append(m, *ls):
    r = ls[-1] if ls else NIL
    for l in reversed(ls[:-1]):
        r = mklist(pylist(l), r)
    return r


def p_remainder(m, a, b):
    num(a, b)
    if b == 0:
        raise SchemeError(ERR)
    q = abs(a) % abs(b)
    return -q if a < 0 else q


def p_vecref(m, v, i):
    if not 0 <= i < len(v.v):
        raise SchemeError(ERR)
    return v.v[i]


def p_vecset(m, v, i, x):
    if not 0 <= i < len(v.v):
        raise SchemeError(ERR)
    v.v[i] = x
    return UNSPEC


def p_emit(m, *a):
    if any(has_opaque(x) for x in a):
        m.probe("opaque-shown")
    m.out.append(" ".join(show(x) for x in a))
    return UNSPEC


def has_opaque(v):
    while isinstance(v, Pair):
        if has_opaque(v.car):
            return True
        v = v.cdr
    if isinstance(v, Vec):
        return any(has_opaque(x) for x in v.v)
    return not (v is NIL or isinstance(v, (Sym, int, Str, Char)))


def strs(*a):
    for x in a:
        if not isinstance(x, Str):
            raise SchemeError(ERR)


def p_touch(m, n):
    """opens and closes an input file the simulator may refuse"""
    need(isinstance(n, int) and n > 0)
    if n in m.failing:
        m.probe("io-throw")
        raise SchemeError(ERR)
    return n


def eqv(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return str(a) == str(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Char) and isinstance(b, Char):
        return a.v == b.v
    return a is b


def equal(a, b):
    if isinstance(a, Pair) and isinstance(b, Pair):
        return equal(a.car, b.car) and equal(a.cdr, b.cdr)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.v == b.v
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.v) == len(b.v) and all(equal(x, y) for x, y in zip(a.v, b.v))
    return eqv(a, b)


def p_error(m, *a):
    raise SchemeError(ERR)


PRIMS = {
    "call/cc": (p_callcc, True), "call-with-current-continuation": (p_callcc, True), "dynamic-wind": (p_dynwind, True),
    "catch": (p_catch, True), "throw": (p_throw, True), "force": (p_force, True), "apply": (p_apply, True),
    "map": (p_map, True), "for-each": (p_each, True), "values": (p_values, True), "call-with-values": (p_cwv, True),
    "+": (p_add,), "-": (p_sub,), "*": (p_mul,), "remainder": (p_remainder,),
    "=": (lambda m, a, b: (num(a, b), a == b)[1],), "<": (lambda m, a, b: (num(a, b), a < b)[1],),
    ">": (lambda m, a, b: (num(a, b), a > b)[1],),
    "car": (p_car,), "cdr": (p_cdr,), "cons": (lambda m, a, b: Pair(a, b),), "set-car!": (p_setcar,),
    "list": (lambda m, *a: mklist(list(a)),), "append": (p_append,), "reverse": (lambda m, a: mklist(pylist(a)[::-1]),),
    "length": (lambda m, a: len(pylist(a)),), "null?": (lambda m, a: a is NIL,), "pair?": (lambda m, a: isinstance(a, Pair),),
    "not": (lambda m, a: a is False,), "eq?": (lambda m, a, b: eqv(a, b),), "eqv?": (lambda m, a, b: eqv(a, b),),
    "equal?": (lambda m, a, b: equal(a, b),),
    "vector": (lambda m, *a: Vec(list(a)),), "make-vector": (lambda m, n, x: Vec([x] * n),),
    "vector-ref": (p_vecref,), "vector-set!": (p_vecset,), "vector-length": (lambda m, v: len(v.v),),
    "vector->list": (lambda m, v: mklist(v.v),), "list->vector": (lambda m, l: Vec(pylist(l)),),
    "string-append": (lambda m, *a: (strs(*a), Str("".join(x.v for x in a)))[1],), "number->string": (lambda m, n: (num(n), Str(str(n)))[1],),
    "string->symbol": (lambda m, s: S(s.v),), "symbol->string": (lambda m, s: Str(str(s)),),
    "string-length": (lambda m, s: (strs(s), len(s.v))[1],),
    "procedure?": (lambda m, f: isinstance(f, (Closure, Prim, Cont)),),
    "number?": (lambda m, a: isinstance(a, int) and not isinstance(a, bool),),
    "string?": (lambda m, a: isinstance(a, Str),), "symbol?": (lambda m, a: isinstance(a, Sym),), "boolean?": (lambda m, a: isinstance(a, bool),),
    "eval": (p_eval, True), "load": (p_load, True), "hash-fold": (p_hfold, True), "module-map": (p_mmap, True), "resolve-module": (p_modtab,), "mvl": (lambda m, v: mklist(v.v) if isinstance(v, Multi) else v,), "map-in-order": (p_map, True),
    "emit": (p_emit,), "touch": (p_touch,),
}


def _hkey(v):
    """a hashable stand-in for equal?-keyed tables (generators use ints, symbols, strings, lists of those)"""
    if isinstance(v, Sym):
        return ("y", str(v))
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, Str):
        return ("s", v.v)
    if isinstance(v, Char):
        return ("c", v.v)
    if v is NIL:
        return ("n",)
    if isinstance(v, Pair):
        return ("p",) + tuple(_hkey(x) for x in pylist(v))
    return ("o", id(v))


def p_hset(m, h, key, v):
    h.d[_hkey(key)] = (key, v)
    return v


def p_href(m, h, key, *dflt):
    r = h.d.get(_hkey(key))
    return r[1] if r else (dflt[0] if dflt else False)


def p_hdel(m, h, key):
    h.d.pop(_hkey(key), None)
    return UNSPEC


PRIMS.update({
    "make-hash-table": (lambda m, *a: Hash(),), "hash-set!": (p_hset,), "hash-ref": (p_href,), "hash-remove!": (p_hdel,),
    "hashq-set!": (p_hset,), "hashq-ref": (p_href,), "hashq-remove!": (p_hdel,),
    "hashv-set!": (p_hset,), "hashv-ref": (p_href,), "hashv-remove!": (p_hdel,),
})


# -- reader
CHARS = {"space": " ", "newline": "\n", "tab": "\t"}


def read_all(text):
    """program text -> list of s-expressions in the form the model evaluates"""
    import re
    toks = re.findall(r""";[^\n]*|'|\(|\)|"(?:[^"\\]|\\.)*"|\#\\(?:[a-z]+|.)|[^\s()'";]+""", text)
    toks = [t for t in toks if not t.startswith(";")]
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == "(":
            r = []
            while toks[pos] != ")":
                r.append(rd())
            pos += 1
            return r
        if t == "'":
            return [S("quote"), rd()]
        if t[0] == '"':
            return Str(t[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        if t.startswith("#\\"):
            n = t[2:]
            return Char(CHARS.get(n, n))
        if t == "#t":
            return True
        if t == "#f":
            return False
        try:
            return int(t)
        except ValueError:
            return S(t)

    out = []
    while pos < len(toks):
        out.append(rd())
    return out

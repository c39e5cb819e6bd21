"""property id -> check"""
import importlib, os, pkgutil

_M = None


def table():
    global _M
    if _M is None:
        _M = {}
        import vf.props as P
        for m in pkgutil.iter_modules(P.__path__):
            mod = importlib.import_module("vf.props." + m.name)
            for p in getattr(mod, "PROPS", []):
                _M[p.id] = p
    return _M


def get(pid):
    t = table()
    if pid not in t:
        raise SystemExit("unknown property %r; have %s" % (pid, " ".join(sorted(t))))
    return t[pid]

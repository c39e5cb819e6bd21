"""Driving the simulator: specs, results, builds, worker pools."""
import hashlib, json, os, struct, subprocess, sys, time, shutil, tempfile, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSCM_REPO", "/repo")
BUILD_ROOT = os.path.join(HERE, ".build")


def src_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HERE, "sim")]
    for root in roots:
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".cc", ".h", ".sh", ".cpp", ".hpp")):
                    p = os.path.join(dp, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()[:16]


def build():
    """Rebuild the simulator from the current working tree; returns the binary path."""
    hh = src_hash()
    out = os.path.join(BUILD_ROOT, hh)
    binp = os.path.join(out, "simbin")
    if os.path.exists(binp):
        return binp
    os.makedirs(BUILD_ROOT, exist_ok=True)
    for d in os.listdir(BUILD_ROOT):  # keep only a few builds
        p = os.path.join(BUILD_ROOT, d)
        if os.path.isdir(p) and time.time() - os.path.getmtime(p) > 1800:
            shutil.rmtree(p, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=BUILD_ROOT)
    try:
        r = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), REPO, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode("utf8", "replace")[-4000:])
            raise SystemExit("simulator build failed")
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp, ignore_errors=True)
    return binp


class Result:
    __slots__ = ("recs", "wstatus", "flags", "out", "err", "files", "end", "faults", "io", "gcs", "status", "kind", "digest", "client", "census", "viol", "ops")

    def __init__(self, recs, wstatus, flags, raw):
        self.recs = recs
        self.wstatus = wstatus
        self.flags = flags
        out, err = [], []
        self.census, self.viol, self.ops = {}, [], []
        self.files, self.end, self.faults, self.io, self.gcs, self.client = {}, {}, [], [], [], []
        torn = False
        for i in [i for i, (t, p) in enumerate(recs) if t == "I" and p.startswith(b"reopen ")]:
            # refused for lack of descriptors, then opened by the same operation: it did not fail
            path = recs[i][1][7:]
            j = max(j for j in range(i) if recs[j][0] == "F" and recs[j][1].split(b" ", 4)[2:] == [b"EMFILE", b"0", path])
            recs[i] = recs[j] = ("-", b"")
        for t, p in recs:
          try:
              if t == "O":
                  out.append(p)
              elif t == "E":
                  err.append(p)
              elif t == "D":
                  k, _, v = p.partition(b"\n")
                  self.files[k.decode()] = v
              elif t == "F":
                  self.faults.append(p.decode("latin-1"))
              elif t == "I":
                  self.io.append(p.decode("latin-1"))
              elif t == "G":
                  self.gcs.append(struct.unpack("<I", p)[0])
              elif t == "C":
                  self.client.append(p)
              elif t == "L":
                  a, b = p.split()
                  self.census[int(a)] = int(b)
              elif t == "J":
                  self.ops.append(p.decode("latin-1"))
              elif t == "V":
                  self.viol.append(p.decode())
              elif t == "Z":
                  self.end.update(x.split("=", 1) for x in p.decode().split())
          except (struct.error, ValueError):  # the log itself was overwritten
            torn = True
        self.out = b"".join(out)
        self.err = b"".join(err)
        if flags & 2:
            self.kind = "hang"
        elif os.WIFSIGNALED(wstatus):
            s = os.WTERMSIG(wstatus)
            self.kind = "hang" if s in (signal.SIGXCPU, signal.SIGKILL) else "signal:" + signal.Signals(s).name
        elif self.end and "why" in self.end and not torn:
            self.kind = self.end["why"]
        else:
            self.kind = "lost:%d" % wstatus
        self.status = int(self.end.get("status", -1)) if self.end else -1
        self.digest = hashlib.sha256(raw + b"%d %d" % (wstatus, flags)).hexdigest()[:16]

    def stat(self, k):
        return int(self.end.get(k, 0)) if self.end else 0

    def text(self):
        return self.out.decode("latin-1")


def _item(t, k, v):
    if isinstance(k, str):
        k = k.encode()
    if isinstance(v, str):
        v = v.encode("latin-1")
    return t.encode() + struct.pack("<I", len(k)) + k + struct.pack("<I", len(v)) + v


def encode(spec):
    b = []
    for k, v in sorted(spec.get("knobs", {}).items()):
        b.append(_item("K", k, str(int(v))))
    for k, v in sorted(spec.get("files", {}).items()):
        b.append(_item("F", k, v))
    for k, v in sorted(spec.get("faulty", {}).items()):
        b.append(_item("f", k, v))
    for a in spec.get("args", []):
        b.append(_item("A", "", a))
    for op, arg in spec.get("client", []):
        b.append(_item("C", op, arg))
    if "stdin" in spec:
        b.append(_item("S", "", spec["stdin"]))
    for k, (kind, arg) in sorted((int(k), v) for k, v in spec.get("plan", {}).items()):
        b.append(_item("P", str(k), "%s %d" % (kind, arg)))
    if spec.get("gcplan"):
        b.append(_item("G", "", struct.pack("<%dI" % len(spec["gcplan"]), *spec["gcplan"])))
    return b"".join(b)


class Sim:
    def __init__(self, binp):
        self.binp = binp
        self.p = None
        self.runs = 0

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
        self.p = subprocess.Popen([self.binp], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd="/")

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p.kill()
            self.p.wait()
            self.p = None

    def _rd(self, n):
        b = bytearray()
        while len(b) < n:
            c = self.p.stdout.read(n - len(b))
            if not c:
                raise RuntimeError("simulator zygote died")
            b += c
        return bytes(b)

    def run(self, spec):
        if self.p is None:
            self.start()
        e = encode(spec)
        self.p.stdin.write(struct.pack("<I", len(e)) + e)
        self.p.stdin.flush()
        used, st, fl = struct.unpack("<III", self._rd(12))
        raw = self._rd(used)
        recs, i = [], 0
        while i < used:
            t = chr(raw[i])
            n = struct.unpack_from("<I", raw, i + 1)[0]
            recs.append((t, raw[i + 5:i + 5 + n]))
            i += 5 + n
        self.runs += 1
        return Result(recs, st, fl, raw)


def explicit(spec, res):
    """The same run with every random decision written out (replayable, shrinkable)."""
    s = json.loads(json.dumps(spec)) if False else dict(spec)
    k = dict(spec.get("knobs", {}))
    if k.get("gc_mode") == 1:
        k["gc_mode"] = 2
        s["gcplan"] = list(res.gcs)
    if k.get("io_mode") == 1:
        k["io_mode"] = 2
        plan = {}
        for f in res.faults:
            w = f.split(" ", 4)
            if w[1] == "mmap" or w[2] == "" or (w[1] == "open" and k.get("max_fd") and w[2] == "EMFILE"):
                continue
            plan[int(w[0])] = (w[2], int(w[3]))
        s["plan"] = plan
    s["knobs"] = k
    return s

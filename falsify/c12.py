"""C12: at every crash point a complete checkpoint of the last completed step (or a later one) remains; nothing else is touched.
A child process runs a history and dies at its n-th file-system operation, for every n; the parent inspects the directory."""
from lib import *
import os, shutil, errno, dataclasses, tempfile, sys, builtins, pathlib
import numpy as np
RULE = "histories of steps (repeated and advancing keys) and restarts, same or other filesystem, with a crash at each file-system operation in turn; non-trivial: at least two completed steps, or a crash"
FOREIGN = {"notes.txt": b"keep", "best-000000000003/config.ron": b"(a: 1)", "other.000000000099.tmp/x": b"y", "zlatest/q": b"1", "latest.txt": b"z"}
def cases(rng):
    while True:
        ops = []
        key = rng.choice([0, 0, 7])
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.25 and ops: ops.append(("restart",))
            else:
                if ops: key += rng.choice([0, 1, 1, 3, 90])
                ops.append(("step", key))
        if ops[-1] == ("restart",): ops.append(("step", key + 1))
        yield dict(ops=ops, exdev=rng.random() < 0.5, foreign=rng.random() < 0.7, lazy=rng.random() < 0.4, keyname=rng.choice(["step", "it"]), crash=rng.random() < 0.85)
def nontrivial(c): return c["crash"] or len([o for o in c["ops"] if o[0] == "step"]) > 1
class Env:
    pass
def setup(c):
    import hyperstate
    from hyperstate import StateManager, Lazy, Serializable
    e = Env()
    class Blob(Serializable):
        def __init__(self, n): self.n = n
        def serialize(self): return {"n": self.n, "data": np.arange(self.n % 50)}
        @classmethod
        def deserialize(cls, d, config, state, ctx):
            assert len(d["data"]) == d["n"] % 50
            return cls(d["n"])
    e.Blob = Blob
    C = dataclasses.make_dataclass("C", [("a", int, dataclasses.field(default=1)), ("lr", float, dataclasses.field(default=0.5))])
    if c["lazy"]:
        S = dataclasses.make_dataclass("S", [(c["keyname"], int), ("blob", Blob), ("blob2", Blob)], bases=(Lazy,))
        e.init = lambda a, b: S(0, Blob(0), Blob(1))
    else:
        S = dataclasses.make_dataclass("S", [(c["keyname"], int), ("payload", str, dataclasses.field(default="x"))])
        e.init = lambda a, b: S(0)
    e.C, e.S = C, S
    e.mk = lambda: StateManager(C, S, e.init, checkpoint_dir="ck", checkpoint_key=c["keyname"], overrides=["a=5"])
    return e
def history(c, e, done):
    sm = e.mk()
    for op in c["ops"]:
        if op[0] == "restart": sm = e.mk()
        else:
            st = sm.state
            setattr(st, c["keyname"], op[1])
            if c["lazy"]: st.blob = e.Blob(op[1]); st.blob2 = e.Blob(op[1] + 1)
            else: st.payload = "p%d" % op[1]
            sm.step()
            done(op[1])
class Counter:
    """Counts file-system operations of this process below the scratch directory, and kills it at the limit-th."""
    def __init__(self, limit, exdev, root):
        self.n = 0; self.limit = limit; self.exdev = exdev; self.root = root; self.on = True
    def tick(self):
        if not self.on: return
        self.n += 1
        if self.limit is not None and self.n >= self.limit: os._exit(77)
    def install(self):
        me = self
        def side(p):
            p = os.path.abspath(os.fspath(p)) if not isinstance(p, int) else ""
            return "ck" if p.startswith(os.path.join(me.root, "ck")) else "tmp"
        def wrap(name, two=False):
            orig = getattr(os, name)
            def f(*a, **k):
                me.tick()
                if two and me.exdev and side(a[0]) != side(a[1]): raise OSError(errno.EXDEV, "Invalid cross-device link")
                return orig(*a, **k)
            setattr(os, name, f)
            for acc in ("_normal_accessor", "_NormalAccessor"):
                x = getattr(pathlib, acc, None)
                if x is not None and hasattr(x, name):
                    try: setattr(x, name, staticmethod(f) if isinstance(x, type) else f)
                    except Exception: pass
        for n in ("mkdir", "rmdir", "unlink", "remove"): wrap(n)
        for n in ("rename", "replace", "link", "symlink"): wrap(n, True)
        oo = builtins.open
        def fopen(file, mode="r", *a, **k):
            w = any(x in mode for x in "wxa+")
            if w: me.tick()
            f = oo(file, mode, *a, **k)
            if w: me.tick()
            return f
        builtins.open = fopen
        import io
        io.open = fopen
def inspect(c, e, last):
    """Problems with the checkpoint directory, given the key of the last completed step (or None)."""
    names = sorted(os.listdir("ck")) if os.path.isdir("ck") else []
    prefix = "latest-%s" % c["keyname"]
    keys = []
    for n in names:
        if n.startswith(prefix) and len(n) == len(prefix) + 12 and n[len(prefix):].isdigit():
            k = int(n[len(prefix):])
            r = complete(c, e, os.path.join("ck", n), k)
            if r: return "%s is not a complete checkpoint: %s" % (n, r)
            keys.append(k)
    if last is not None and not any(k >= last for k in keys): return "the step with key %d had completed, but only %r is there" % (last, names)
    if c["foreign"]:
        for p, b in FOREIGN.items():
            q = os.path.join("ck", p)
            if not os.path.exists(q) or open(q, "rb").read() != b: return "%s was touched" % p
    return None
def complete(c, e, d, k):
    import hyperstate
    def load():
        cfg = hyperstate.load(e.C, os.path.join(d, "config.ron"))
        if cfg.a != 5: return "config %r" % cfg
        st = hyperstate.load(e.S, os.path.join(d, "state.ron"))
        if getattr(st, c["keyname"]) != k: return "state has key %r" % getattr(st, c["keyname"])
        if c["lazy"]:
            if st.blob.n != k or st.blob2.n != k + 1: return "blobs of another step"
        elif st.payload != "p%d" % k: return "payload %r" % st.payload
    kind, r = outcome(load)
    return r
def run(c, e, limit, root):
    """Runs the history in a child that dies at operation number limit; returns (operations, last completed key, finished, error)."""
    shutil.rmtree("ck", ignore_errors=True); shutil.rmtree("tmp", ignore_errors=True); os.mkdir("tmp")
    if c["foreign"]:
        for p, b in FOREIGN.items():
            os.makedirs(os.path.dirname(os.path.join("ck", p)), exist_ok=True)
            with open(os.path.join("ck", p), "wb") as f: f.write(b)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            tempfile.tempdir = os.path.join(root, "tmp")
            cnt = Counter(limit, c["exdev"], root)
            if sys.version_info < (3, 14): cnt.install()
            def done(k): os.write(w, ("d%d\n" % k).encode())
            try:
                history(c, e, done)
                os.write(w, ("n%d\n" % cnt.n).encode())
                code = 0
            except Exception as x:
                os.write(w, ("e%s: %s\n" % (type(x).__name__, str(x).replace("\n", " ")[:200])).encode())
        finally: os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b: break
        buf += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    last = None; n = None; err = None
    for line in buf.decode().split("\n"):
        if line.startswith("d"): last = int(line[1:])
        elif line.startswith("n"): n = int(line[1:])
        elif line.startswith("e"): err = line[1:]
    return n, last, n is not None, err
def check(c):
    e = setup(c); root = os.getcwd()
    n, last, fin, err = run(c, e, None, root)
    what = "after %r (%s filesystem)" % (c["ops"], "another" if c["exdev"] else "the same")
    if not fin: return ("raised", "%s: %s" % (what, err))
    r = inspect(c, e, last)
    if r: return ("lost", "%s: %s" % (what, r))
    left = [x for x in sorted(os.listdir("ck")) if not (c["foreign"] and any(p.split("/")[0] == x for p in FOREIGN))]
    want = "latest-%s%012d" % (c["keyname"], last)
    if left != [want]: return ("leftover", "%s the directory holds %r, not just %s" % (what, left, want))
    if not c["crash"]: return None
    k0, last0 = 1, None
    for k in range(1, n + 1):
        _, last, fin, err = run(c, e, k, root)
        if fin: break
        if err: return ("raised", "%s: %s" % (what, err))
        w = "%s, killed at operation %d of %d" % (what, k, n)
        r = inspect(c, e, last)
        if r: return ("crash", "%s: %s" % (w, r))
        # a restart resumes from a complete checkpoint, at least as new as the last completed step
        kind, sm = outcome(lambda: (lambda sm: (sm.config.a, getattr(sm.state, c["keyname"])))(e.mk()))
        if kind == "raise": return ("restart", "%s: restarting raised %s" % (w, sm))
        if sm[0] != 5 or (last is not None and sm[1] < last): return ("restart", "%s: a restart sees %r" % (w, sm))

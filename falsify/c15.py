"""C15: lazy fields are read on first access, once, and never by unsafe means."""
from lib import *
import os, shutil, dataclasses, builtins, pickle, io, msgpack, hyperstate
from hyperstate import Serializable, Lazy, StateManager
RULE = "random sequences of reads and assignments of the fields of a loaded lazy state, with some blobs missing, truncated, corrupt or legacy pickles, repaired midway; non-trivial: a fault, an assignment or a repeated read"
FIELDS = ["alpha", "beta", "gamma", "a_b"]
def cases(rng):
    while True:
        fs = rng.sample(FIELDS, rng.randint(1, 4))
        faults = {f: rng.choice(["ok", "ok", "ok", "missing", "empty", "corrupt", "reject", "pickle", "BLOB"]) for f in fs}
        ops = []
        for _ in range(rng.randint(1, 10)):
            f = rng.choice(fs)
            ops.append(rng.choice([("get", f), ("get", f), ("get", f), ("set", f, rng.randint(0, 9)), ("repair", f), ("plain",), ("ctx", rng.randint(0, 3)), ("hasattr", f)]))
        yield dict(fields=fs, faults=faults, ops=ops, how=rng.choice(["load", "manager"]), optin=rng.random() < 0.2, chdir=rng.random() < 0.3)
def nontrivial(c): return any(v != "ok" for v in c["faults"].values()) or any(o[0] == "set" for o in c["ops"]) or len({o for o in c["ops"] if o[0] == "get"}) < len([o for o in c["ops"] if o[0] == "get"])
class Evil:
    """Notes that it was unpickled."""
    hit = []
    def __reduce__(self): return (note, ("x",))
def note(x): Evil.hit.append(x); return {"n": 40, "f": "?"}
def check(c):
    shutil.rmtree("st", ignore_errors=True); os.mkdir("st")
    calls = []; home = os.getcwd()
    class Refuse(Exception): pass
    reject = set()
    cls = {}
    for f in c["fields"]:
        def make(f=f):
            class B(Serializable):
                def __init__(self, n): self.n = n
                def serialize(self): return {"n": self.n, "f": f}
                @classmethod
                def deserialize(k, d, config, state, ctx):
                    calls.append((f, d, config, state, dict(ctx)))
                    if f in reject: raise Refuse(f)
                    return k(d["n"])
            return B
        cls[f] = make()
    S = dataclasses.make_dataclass("S", [(f, cls[f]) for f in c["fields"]] + [("step", int, dataclasses.field(default=0))], bases=(Lazy,))
    C = dataclasses.make_dataclass("C", [("x", int, dataclasses.field(default=1))])
    n0 = {f: 10 + i for i, f in enumerate(c["fields"])}
    sm0 = StateManager(C, S, lambda a, b: S(**{f: cls[f](n0[f]) for f in c["fields"]}, step=7))
    sm0.state
    os.rmdir("st"); sm0.checkpoint("st")
    path = {f: os.path.join("st", "state.%s.msgpack" % f) for f in c["fields"]}
    for f in c["fields"]:
        if not os.path.exists(path[f]): path[f] = [os.path.join("st", x) for x in os.listdir("st") if f in x][0]
    good = {f: open(path[f], "rb").read() for f in c["fields"]}
    text = open("st/state.ron").read()
    import pyron
    for f, k in c["faults"].items():
        if k == "missing": os.remove(path[f])
        elif k == "empty": open(path[f], "wb").close()
        elif k == "corrupt":
            with open(path[f], "wb") as h: h.write(good[f][: len(good[f]) // 2])
        elif k == "reject": reject.add(f)
        elif k in ("pickle", "BLOB"):
            mark = "<blob:pickle>" if k == "pickle" else "<BLOB>"
            a, b, rest = text.partition("%s: \"" % f)
            text = a + b + mark + rest[rest.index('"'):]
            target = os.path.join("st", "state.%s.pickle" % f if k == "pickle" else f)
            with open(target, "wb") as h: h.write(pickle.dumps(Evil()))
    with open("st/state.ron", "w") as h: h.write(text)
    del Evil.hit[:]
    opened = []
    oo = builtins.open
    def spy(file, mode="r", *a, **k):
        if isinstance(file, (str, os.PathLike)) and "b" in mode and "r" in mode: opened.append(os.path.basename(os.fspath(file)))
        return oo(file, mode, *a, **k)
    old_env = os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
    if c["optin"]: os.environ["UNSAFE_DESERIALIZE_PICKLE"] = "1"
    builtins.open = spy
    what = "fields %r with blobs %r, %s after " % (c["fields"], c["faults"], "opted in to pickles" if c["optin"] else "no pickles")
    done = []
    try:
        cfg = C(x=5)
        if c["how"] == "load":
            kind, st = outcome(lambda: hyperstate.load(S, "st/state.ron"))
            cfg = None
        else:
            sm = StateManager(C, S, lambda a, b: None, init_path="st", overrides=["x=5"])
            sm.set_deserialize_ctx("k", 11)
            kind, st = outcome(lambda: sm.state)
            cfg = sm.config if kind == "ok" else None
        if kind == "raise": return ("load", "%s loading raised %s" % (what, st))
        if opened or calls: return ("eager", "%s loading read the blobs %r and deserialized %r" % (what, opened, [x[0] for x in calls]))
        ctx = {"k": 11} if c["how"] == "manager" else {}
        if c["chdir"]:
            path = {f: os.path.abspath(p) for f, p in path.items()}
            os.makedirs("elsewhere", exist_ok=True); os.chdir("elsewhere"); what = "(after a change of directory) " + what
        val = {}
        bad = {f: k for f, k in c["faults"].items() if k != "ok"}
        for op in c["ops"]:
            done.append(op)
            w = what + repr(done)
            del opened[:]; del calls[:]; del Evil.hit[:]
            if op[0] == "plain":
                if st.step != 7: return ("plain", "%s: step is %r" % (w, st.step))
                if opened or calls: return ("eager", "%s: reading another field read %r" % (w, opened))
            elif op[0] == "ctx": st.set_deserialize_ctx("c%d" % op[1], op[1]); ctx["c%d" % op[1]] = op[1]
            elif op[0] == "set":
                v = cls[op[1]](op[2]); setattr(st, op[1], v); val[op[1]] = v
                if calls: return ("eager", "%s: assigning deserialized %r" % (w, calls))
            elif op[0] == "repair":
                f = op[1]
                if bad.get(f) in ("missing", "empty", "corrupt"):
                    with oo(path[f], "wb") as h: h.write(good[f])
                    del bad[f]
                elif bad.get(f) == "reject": reject.discard(f); del bad[f]
            else:
                f = op[1]
                if op[0] == "hasattr" and bad.get(f): continue
                kind, v = outcome(lambda: getattr(st, f))
                if f in val:
                    if kind == "raise" or v is not val[f]: return ("again", "%s: reading %s again gave %r instead of the same object" % (w, f, v))
                    if opened or calls: return ("again", "%s: reading %s again read %r" % (w, f, opened))
                    continue
                b = bad.get(f)
                legacy = b in ("pickle", "BLOB")
                if legacy and not c["optin"] and Evil.hit: return ("unpickled", "%s: reading %s unpickled it" % (w, f))
                if b and not (legacy and c["optin"]):
                    if kind == "ok": return ("corrupt", "%s: reading %s gave %r" % (w, f, v))
                    if any(x[0] != f for x in calls): return ("others", "%s: reading %s deserialized %r" % (w, f, calls))
                    continue
                if kind == "raise": return ("raised", "%s: reading %s raised %s" % (w, f, v))
                if type(v) is not cls[f] or v.n != (40 if legacy else n0[f]): return ("value", "%s: reading %s gave %r" % (w, f, v))
                if [x[0] for x in calls] != [f] or len([x for x in opened if x.endswith((".msgpack", ".pickle")) or x == f]) != 1: return ("once", "%s: reading %s read %r and deserialized %r" % (w, f, opened, [x[0] for x in calls]))
                if calls[0][2] is not cfg or calls[0][3] is not st or calls[0][4] != ctx: return ("args", "%s: the deserializer of %s got config %r, state %r, context %r" % (w, f, calls[0][2], type(calls[0][3]), calls[0][4]))
                val[f] = v
    finally:
        builtins.open = oo
        os.chdir(home)
        os.environ.pop("UNSAFE_DESERIALIZE_PICKLE", None)
        if old_env is not None: os.environ["UNSAFE_DESERIALIZE_PICKLE"] = old_env

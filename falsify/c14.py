"""C14: arrays come back bit for bit; a custom-serialized field's deserializer receives what its serializer returned."""
from lib import *
import numpy as np, msgpack, os, shutil, dataclasses, hyperstate
from hyperstate import Serializable, Lazy, StateManager, msgpack_torch
RULE = "random arrays (dtypes, byte orders, shapes with 0-d and empty, memory layouts) alone and inside random payloads of lazy states with several fields; non-trivial: an array that is not a plain vector, or a nested payload"
DT = ["?", "i1", "u1", "<i2", ">i2", "<i4", ">u4", "<i8", "<u8", "<f2", "<f4", ">f4", "<f8", ">f8", "<c8", "<c16", "S3", "<U4", "<M8[s]", "<m8[ns]", "<M8[D]"]
def garr(rng):
    return ("arr", rng.choice(DT), tuple(rng.choice([0, 1, 2, 3, 5]) if rng.random() < 0.8 else 1 for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))), rng.choice(["C", "F", "T", "slice", "rev", "ro", "bcast"]), rng.randint(0, 10**6))
def gpay(rng, depth=0):
    k = rng.random()
    if k < 0.35: return garr(rng)
    if k < 0.6 or depth > 2: return rng.choice([None, True, 0, -1, 2**40, 1.5, "s", "", b"", b"\x00bytes", "\u00e9", 2**63, -2**63])
    if k < 0.75: return [gpay(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if k < 0.85: return ("tup",) + tuple(gpay(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    return {q: gpay(rng, depth + 1) for q in rng.sample(["a", "b", "data", "dtype", "shape", 1, 0, -4, b"k", "__tensor__", b"dtype", b"data"], rng.randint(0, 3))}
def mk(p):
    """The payload that a case describes."""
    if isinstance(p, tuple) and p and p[0] == "arr":
        _, dt, sh, lay, seed = p
        r = np.random.RandomState(seed)
        dtype = np.dtype(dt)
        n = int(np.prod(sh)) if sh else 1
        raw = r.bytes(max(1, n * dtype.itemsize))
        if dtype.kind == "b": a = np.array([bool(x & 1) for x in raw[:n]], dtype=dtype)
        elif dtype.kind in "SU": a = np.array([("ab%d" % (x % 30)) for x in raw[:n]], dtype=dtype) if n else np.zeros(0, dtype)
        elif dtype.kind in "fc": a = np.array([x - 100 + 0.25 for x in raw[:n]]).astype(dtype) if n else np.zeros(0, dtype)
        else: a = np.frombuffer(raw, dtype=dtype, count=n).copy()
        if n >= 2 and dtype.kind == "f": a[0] = float("nan"); a[1] = -0.0
        a = a.reshape(sh)
        if lay == "F": a = np.asfortranarray(a)
        elif lay == "T": a = a.T
        elif lay == "slice" and a.ndim: a = np.repeat(a, 2, axis=0)[::2]
        elif lay == "rev" and a.ndim: a = a[::-1]
        elif lay == "ro": a.flags.writeable = False
        elif lay == "bcast" and a.ndim: a = np.broadcast_to(a, (2,) + a.shape)
        return a
    if isinstance(p, tuple): return tuple(mk(x) for x in p[1:])
    if isinstance(p, list): return [mk(x) for x in p]
    if isinstance(p, dict): return {k: mk(v) for k, v in p.items()}
    return p
def eq(a, b, path=""):
    """None, or where b differs from a (tuples count as lists)."""
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray): return "%s is a %s" % (path, type(b).__name__)
        if a.dtype != b.dtype or a.dtype.str != b.dtype.str: return "%s has dtype %s, not %s" % (path, b.dtype.str, a.dtype.str)
        if a.shape != b.shape: return "%s has shape %r, not %r" % (path, b.shape, a.shape)
        return None if a.tobytes() == b.tobytes() else "%s has other contents" % path
    if isinstance(a, (tuple, list)):
        if not isinstance(b, list) or len(a) != len(b): return "%s is %r" % (path, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = eq(x, y, "%s[%d]" % (path, i))
            if r: return r
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or [(type(k), k) for k in a] != [(type(k), k) for k in b]: return "%s is %r" % (path, b)
        for k in a:
            r = eq(a[k], b[k], "%s[%r]" % (path, k))
            if r: return r
        return None
    return None if type(a) is type(b) and a == b else "%s is %r, not %r" % (path, b, a)
NAMES = ["blob", "net", "a_b", "a", "b", "optimizer", "state", "w", "weights_1", "msgpack"]
def cases(rng):
    while True:
        if rng.random() < 0.4: yield dict(mode="array", arr=garr(rng))
        elif rng.random() < 0.15: yield dict(mode="other", obj=rng.choice([None, 1, "x", [1, 2], {"a": 1}, {b"x": 2}, 1.5, b"q", True]))
        else:
            fs = rng.sample(NAMES, rng.randint(1, 4))
            yield dict(mode="state", fields={f: gpay(rng) for f in fs}, order=rng.sample(fs, len(fs)), how=rng.choice(["dump", "manager"]), plain=rng.random() < 0.5)
def nontrivial(c): return c["mode"] == "state" or c["mode"] == "array" and (len(c["arr"][2]) != 1 or c["arr"][3] != "C")
def check(c):
    if c["mode"] == "array":
        a = mk(c["arr"])
        kept = a.tobytes()
        kind, e = outcome(lambda: msgpack_torch.encode(a))
        if kind == "raise": return ("encode", "encoding %r raised %s" % (c["arr"], e))
        for how, fn in (("directly", lambda: msgpack_torch.decode(e)), ("through msgpack", lambda: msgpack.unpackb(msgpack.packb(a, default=msgpack_torch.encode), object_hook=msgpack_torch.decode, strict_map_key=False)),
                        ("inside a dict", lambda: msgpack.unpackb(msgpack.packb({"x": [a]}, default=msgpack_torch.encode), object_hook=msgpack_torch.decode, strict_map_key=False)["x"][0])):
            kind, b = outcome(fn)
            if kind == "raise": return ("decode", "decoding %r %s raised %s" % (c["arr"], how, b))
            r = eq(a, b, "the array")
            if r: return ("array", "%r decoded %s: %s" % (c["arr"], how, r))
        if a.tobytes() != kept: return ("mutated", "encoding changed the array")
        return None
    if c["mode"] == "other":
        o = c["obj"]
        kind, e = outcome(lambda: msgpack_torch.encode(o))
        if kind == "raise" or e is not o: return ("other", "encoding %r gave %r" % (o, e))
        kind, e = outcome(lambda: msgpack_torch.encode(o, lambda x: ("chained", x)))
        if kind == "raise" or e != ("chained", o): return ("chain", "encoding %r with a chained encoder gave %r" % (o, e))
        if isinstance(o, dict):
            kind, e = outcome(lambda: msgpack_torch.decode(o))
            if kind == "raise" or e is not o: return ("other", "decoding %r gave %r" % (o, e))
        return None
    shutil.rmtree("st", ignore_errors=True); os.mkdir("st")
    got = {}
    mkcls = {}
    for f in c["fields"]:
        def make(f=f):
            class B(Serializable):
                def __init__(self, p): self.p = p
                def serialize(self): return self.p
                @classmethod
                def deserialize(cls, d, config, state, ctx):
                    got.setdefault(f, []).append(d)
                    return cls(d)
            B.__name__ = "B_" + f
            return B
        mkcls[f] = make()
    fs = [(f, mkcls[f]) for f in c["fields"]] + ([("step", int)] if c["plain"] else [])
    S = dataclasses.make_dataclass("S", fs, bases=(Lazy,))
    vals = {f: mk(p) for f, p in c["fields"].items()}
    st = S(**{f: mkcls[f](vals[f]) for f in vals}, **({"step": 3} if c["plain"] else {}))
    what = "state with payloads %r" % (c["fields"],)
    if c["how"] == "dump":
        kind, e = outcome(lambda: hyperstate.dump(st, "st/state.ron"))
    else:
        C = dataclasses.make_dataclass("C", [("x", int, dataclasses.field(default=1))])
        kind, e = outcome(lambda: (lambda sm: (sm.state, shutil.rmtree("st"), sm.checkpoint("st")))(StateManager(C, S, lambda a, b: st)))
    if kind == "raise": return ("dump", "dumping a %s raised %s" % (what, e))
    files = [x for x in os.listdir("st") if x not in ("state.ron", "config.ron")]
    if len(files) != len(vals): return ("files", "%s was written to %r" % (what, sorted(os.listdir("st"))))
    kind, back = outcome(lambda: hyperstate.load(S, "st/state.ron"))
    if kind == "raise": return ("load", "loading the dump of a %s raised %s" % (what, back))
    for f in c["order"]:
        kind, v = outcome(lambda: getattr(back, f))
        if kind == "raise": return ("access", "%s: reading %s raised %s" % (what, f, v))
        if len(got.get(f, [])) != 1 or type(v) is not mkcls[f]: return ("access", "%s: reading %s called its deserializer %d times and gave %r" % (what, f, len(got.get(f, [])), v))
        r = eq(vals[f], got[f][0], "the data of " + f)
        if r: return ("payload", "%s: %s" % (what, r))
    if c["plain"] and back.step != 3: return ("plain", "%s: step is %r" % (what, back.step))

"""C04: each field of the document is used, each absent one gets its default, unknown ones are errors unless ignored."""
from lib import *
import hyperstate, os
from hyperstate import StateManager
from dataclasses import make_dataclass
RULE = "random config classes, a valid document with random fields left out and up to two unknown fields added at random depths; non-trivial: a field left out or added"
def cases(rng):
    while True:
        g = Gen(rng, defaults=0.7, maxdepth=4, maxfields=4)
        s = g.cls()
        for _ in range(8):
            d = g.doc(s, full=False, drop=rng.choice([0.2, 0.5, 0.9]))
            extra = rng.choice([0, 0, 1, 1, 2])
            for _ in range(extra):
                ps = [p for p, t, x in subdocs(s, d) if not isinstance(t, str) and t[0] == "cls" and isinstance(x, dict)]
                p = rng.choice(ps)
                d = put(d, p + (rng.choice(["zz", "unknown", "a_", "lr2"]),), rng.choice([1, "x", None, [1], {"a": 1}, {}]))
            dropped = 0
            if rng.random() < 0.25:
                ps = [(p, f[0]) for p, t, x in subdocs(s, d) if not isinstance(t, str) and t[0] == "cls" and isinstance(x, dict) for f in t[2] if f[0] in x]
                if ps:
                    p, f = rng.choice(ps)
                    d = drop(d, p + (f,)); dropped = 1
            yield dict(spec=s, doc=d, ignore=rng.random() < 0.5, api=rng.choice(["loads", "loads", "loads", "manager", "load"]), extra=extra + dropped)
def drop(d, path):
    if isinstance(d, dict):
        out = dict(d)
        if len(path) == 1: del out[path[0]]
        else: out[path[0]] = drop(d[path[0]], path[1:])
        return out
    out = list(d); out[path[0]] = drop(out[path[0]], path[1:])
    return type(d)(out)
def nontrivial(c): return c["extra"] > 0 or len(c["doc"]) < len(c["spec"][2])
def check(c):
    w = world(c["spec"]); cls = w.ty(c["spec"])
    text = ron(c["doc"])
    ignore = c["ignore"]
    if c["api"] == "loads": kind, got = outcome(lambda: hyperstate.loads(cls, text, ignore_extra_fields=ignore))
    else:
        with open("f.ron", "w") as f: f.write(text)
        if c["api"] == "load":
            ignore = False
            kind, got = outcome(lambda: hyperstate.load(cls, "f.ron"))
        else: kind, got = outcome(lambda: StateManager(cls, int, lambda c, x: 0, init_path="f.ron", ignore_extra_fields=ignore).config)
    try: want = build(w, c["spec"], c["doc"], ignore)
    except Reject as e:
        if kind == "raise": return None
        return ("accepted", "%s\nhas %s but was loaded as %r" % (text, e, got))
    if kind == "raise": return ("rejected", "%s\nshould load as %r but raised %s" % (text, want, got))
    if not same(want, got): return ("wrong", "%s\nshould load as %r but was loaded as %r" % (text, want, got))

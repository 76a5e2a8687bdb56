"""C05: overrides set exactly the named fields, win over the file, and never misfire."""
from lib import *
import hyperstate, copy, dataclasses
from hyperstate import StateManager
from hyperstate.schema.rewrite_rule import RenameField, AddDefault, DeleteField
RULE = "random config classes (versioned ones with rename/delete rules and an older document too), a partial document and up to four overrides, some invalid; non-trivial: an override of a nested, absent or optional field, or of an older document"
def gcls(g, depth=0, nf=None): return g.cls(depth)
def cases(rng):
    while True:
        g = Gen(rng, defaults=0.75, maxdepth=3, maxfields=4, unions=False)
        s = g.cls(version=rng.choice([None, None, 3]))
        for _ in range(6):
            d = g.doc(s, full=False, drop=rng.choice([0.3, 0.7, 1.0]))
            ov = []
            bad = None
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                p, f = pick(rng, s)
                if rng.random() < 0.12 and bad is None:
                    kind = rng.choice(["field", "deep", "noeq", "bool", "value", "empty"])
                    t = f[1]
                    if kind == "field":
                        for j in range(rng.choice([1, 1, 2, 3, 5])): ov.append(".".join(p[:-1] + ("zz%d" % j,)) + "=1")
                        bad = kind
                    elif kind == "deep" and (isinstance(t, str) or t[0] in ("list", "dict", "tuple", "lit")): ov.append(".".join(p + ("a",)) + "=1"); bad = kind
                    elif kind == "noeq": ov.append(".".join(p)); bad = kind
                    elif kind == "empty": ov.append("=1"); bad = kind
                    elif kind == "bool" and t == "bool": ov.append(".".join(p) + "=" + rng.choice(["maybe", "2", "", "yes", "TRUE1"])); bad = kind
                    elif kind == "value" and t in ("int", "float"): ov.append(".".join(p) + "=" + rng.choice(["abc", "[1]", "true x", "{}"])); bad = kind
                    continue
                if bad == "value": continue
                x = g.doc(f[1], full=rng.random() < 0.5)
                ov.append((".".join(p), text(rng, f[1], x), x))
            rules = None
            if s[3] is not None and rng.random() < 0.7:
                # an older document: some top-level fields had another name, some others did not exist
                rules = []
                old = dict(d)
                for f in s[2]:
                    if rng.random() < 0.5:
                        v = rng.randint(0, 2)
                        rules.append((v, "rename", (f[0] + "_old",), (f[0],)))
                        if f[0] in old: old[f[0] + "_old"] = old.pop(f[0])
                if rng.random() < 0.4: old["gone"] = 5; rules.append((rng.randint(0, 2), "delete", ("gone",), None))
                old["version"] = 0
                d = dict(d)
            yield dict(spec=s, doc=d, old=old if rules is not None else None, rules=rules, overrides=ov, bad=bad, api=rng.choice(["loads", "loads", "load", "manager"]))
def pick(rng, s):
    """A random path to a field through struct fields and optional structs."""
    p = ()
    while True:
        f = rng.choice(s[2]); p = p + (f[0],)
        t = f[1]
        while not isinstance(t, str) and t[0] == "opt": t = t[1]
        if not isinstance(t, str) and t[0] == "cls" and rng.random() < 0.8: s = t; continue
        return p, f
def text(rng, t, x):
    if t == "str": return x
    if t == "bool": return rng.choice(["True", "true", "1", "t", "T"] if x else ["False", "false", "0", "f", "F"])
    return ron(x)
def nontrivial(c): return c["old"] is not None or any(isinstance(o, tuple) and "." in o[0] for o in c["overrides"])
def mkrules(rules):
    out = {}
    for v, kind, a, b in rules:
        out.setdefault(v, []).append(RenameField(a, b) if kind == "rename" else DeleteField(a))
    return out
MISSING = object()
def expect(w, s, d, ovs):
    """The document with the overrides applied: every step of a path that is absent starts from its default."""
    def setp(s, d, p, x):
        f = [f for f in s[2] if f[0] == p[0]][0]
        if len(p) == 1: return dict(d, **{p[0]: x})
        t = f[1]
        while not isinstance(t, str) and t[0] == "opt": t = t[1]
        cur = d.get(p[0], MISSING)
        if cur is MISSING: cur = f[2][0] if f[2] is not None else {}
        if cur is None: cur = {}
        return dict(d, **{p[0]: setp(t, cur, p[1:], x)})
    for path, txt, x in ovs: d = setp(s, d, path.split("."), x)
    return d
def check(c):
    s = c["spec"]
    w = world(s, {s[1]: lambda: mkrules(c["rules"])} if c["rules"] is not None else None)
    if c["rules"] is None and s[3] is not None: w = world(s, {s[1]: lambda: {}})
    cls = w.ty(s)
    doc = c["doc"] if c["old"] is None else c["old"]
    ovs = [o if isinstance(o, str) else "%s=%s" % (o[0], o[1]) for o in c["overrides"]]
    txt = ron(doc)
    before = list(ovs)
    if c["api"] == "loads": kind, got = outcome(lambda: hyperstate.loads(cls, txt, overrides=ovs))
    else:
        with open("f.ron", "w") as f: f.write(txt)
        if c["api"] == "load": kind, got = outcome(lambda: hyperstate.load(cls, "f.ron", overrides=ovs))
        else: kind, got = outcome(lambda: StateManager(cls, int, lambda a, b: 0, init_path="f.ron", overrides=ovs).config)
    what = "%s\nwith overrides %r" % (txt, ovs)
    if c["bad"]:
        if kind == "raise": return None
        return ("bad-override", "%s (one is invalid: %s) was loaded as %r" % (what, c["bad"], got))
    d = expect(w, s, c["doc"], [o for o in c["overrides"]])
    try: want = build(w, s, d)
    except Reject as e:
        if kind == "raise": return None
        return ("accepted", "%s has %s but was loaded as %r" % (what, e, got))
    if kind == "raise": return ("rejected", "%s\nshould load as %r but raised %s" % (what, want, got))
    if not same(want, got): return ("wrong", "%s\nshould load as %r but was loaded as %r" % (what, want, got))
    if ovs != before: return ("mutated", "the list of overrides was changed to %r" % ovs)

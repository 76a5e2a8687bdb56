"""C07: a rewrite rule changes only the field it names and loses no value."""
from lib import *
import hyperstate, copy
from hyperstate.schema.rewrite_rule import *
RULE = "random documents, rules and paths (existing, absent, through nulls, scalars, lists and missing structs); non-trivial: the path exists or passes through something that is not a struct"
KEYS = ["a", "b", "c", "d"]
def gdoc(rng, depth=0):
    k = rng.random()
    if depth and (k < 0.45 or depth > 3): return rng.choice([None, 0, 1, 2.5, "x", "y", True, [], [1, {"a": 1}], (1, 2), {}])
    return {q: gdoc(rng, depth + 1) for q in rng.sample(KEYS, rng.randint(0, 3))}
def gpath(rng, d, existing):
    p = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if isinstance(d, dict) and d and rng.random() < existing:
            k = rng.choice(list(d)); p.append(k); d = d[k]
        else: p.append(rng.choice(KEYS)); d = d.get(p[-1]) if isinstance(d, dict) else None
    return tuple(p)
def cases(rng):
    while True:
        if rng.random() < 0.3: yield load_case(rng); continue
        d = gdoc(rng)
        rules = []
        kind = rng.choice(["rename", "rename", "delete", "map", "change", "add", "check", "reject"])
        p = gpath(rng, d, 0.85)
        q = gpath(rng, d, 0.5)
        vals = rng.sample([0, 1, 2.5, "x", "y", True, None, "z"], rng.randint(1, 4))
        yield dict(mode="apply", doc=d, kind=kind, path=p, to=q, vals=vals, aslist=rng.random() < 0.3)
def getp(d, p):
    for k in p:
        if not isinstance(d, dict) or k not in d: return None, False
        d = d[k]
    return d, True
def delp(d, p):
    if len(p) == 1: return {k: v for k, v in d.items() if k != p[0]}
    return {k: (delp(v, p[1:]) if k == p[0] else v) for k, v in d.items()}
def insertable(d, p):
    """Whether every existing step of the path is a struct."""
    for k in p[:-1]:
        if not isinstance(d, dict): return False
        if k not in d: return True
        d = d[k]
    return isinstance(d, dict)
def nontrivial(c): return c["mode"] == "load" or getp(c["doc"], c["path"])[1] or not insertable(c["doc"], c["path"])
def fmap(x): return ("mapped", repr(x))
def mk(c):
    k = c["kind"]
    p = list(c["path"]) if c["aslist"] else tuple(c["path"])
    if k == "rename": return RenameField(p, tuple(c["to"]))
    if k == "delete": return DeleteField(p)
    if k == "map": return MapFieldValue(p, fmap)
    if k == "change": return ChangeDefault(p, "OLD", "NEW")
    if k == "add": return AddDefault(p, "DEF")
    if k == "check": return CheckValue(p, set(c["vals"]))
    return RejectValues(p, set(c["vals"]))
def weakless(d):
    if isinstance(d, dict): return {k: weakless(v) for k, v in d.items() if not k.startswith("!")}
    return d
def check(c):
    if c["mode"] == "load": return check_load(c)
    d0 = c["doc"]; d = copy.deepcopy(d0); p = tuple(c["path"]); k = c["kind"]
    rule = mk(c)
    v, there = getp(d0, p)
    kind, got = outcome(lambda: rule.apply(d))
    what = "%r applied to %r" % (rule, d0)
    if k in ("check", "reject"):
        try: member = v in list(c["vals"])
        except TypeError: member = False
        hashable = not isinstance(v, (dict, list))
        ok = not there or (member if k == "check" else not member)
        if ok and kind == "raise": return ("rejected", "%s raised %s" % (what, got))
        if not ok and kind == "ok": return ("accepted", "%s was accepted" % what)
        if ok and not same(got, d0): return ("changed", "%s gave %r" % (what, got))
        return None
    if kind == "raise": return ("crash", "%s raised %s" % (what, got))
    if k == "delete": want = delp(d0, p) if there else d0
    elif k == "map": want = put(d0, p, fmap(v)) if there else d0
    elif k == "rename":
        if not there: want = d0
        else:
            rest = delp(d0, p)
            q = tuple(c["to"])
            if getp(rest, q)[1]: return None if same(getp(got, q)[0], v) else ("lost", "%s gave %r" % (what, got))
            want = put(rest, q, v) if insertable(rest, q) else d0
    else:
        dv = "OLD" if k == "change" else "DEF"
        if there or not insertable(d0, p): want = d0
        else: want = put(d0, p, dv)
        if not there and insertable(d0, p) and not getp(d0, p[:-1])[1]:
            # the enclosing struct is absent: the default applies only if the struct is built; how that is noted is internal
            if not same(weakless(got), want): return ("wrong", "%s gave %r" % (what, got))
            return None
    if not same(got, want): return ("wrong", "%s gave %r instead of %r" % (what, got, want))

# ---- rules and loading together: defaults that rules fill in are what the config is loaded with
def load_case(rng):
    g = Gen(rng, defaults=0.9, maxdepth=3, maxfields=3, unions=False, enums=False)
    while True:
        g.n = 0
        s = g.cls(version=9)
        if any(not isinstance(f[1], str) and f[1][0] == "cls" for f in s[2]): break
    d = g.doc(s, full=False, drop=0.6)
    ops = []
    for v in range(rng.randint(1, 4)):
        p, f = pick(rng, s)
        ops.append((rng.choice(["add", "change"]), p, g.doc(f[1])))
    return dict(mode="load", spec=s, doc=dict(d, version=0), ops=ops, path=(), kind="load")
def pick(rng, s):
    p = ()
    while True:
        f = rng.choice(s[2]); p = p + (f[0],)
        t = f[1]
        if not isinstance(t, str) and t[0] == "cls": s = t; continue
        return p, f
def can(f):
    return f[2] is not None or (not isinstance(f[1], str) and f[1][0] == "cls" and all(can(g) for g in f[1][2]))
def check_load(c):
    s = c["spec"]
    rules = lambda: {i: [(AddDefault(p, copy.deepcopy(x)) if k == "add" else ChangeDefault(p, copy.deepcopy(x), None))] for i, (k, p, x) in enumerate(c["ops"])}
    w = world(s, {s[1]: rules}); cls = w.ty(s)
    d0 = c["doc"]
    # expected: fields not given by the document get the first default that a rule names for them
    want_doc = d0
    for k, p, x in c["ops"]:
        v, there = getp(want_doc, p)
        if there or not insertable(want_doc, p): continue
        # make the absent structs on the way explicit, from their defaults
        cur = s; dd = want_doc; q = ()
        miss = False
        for seg in p[:-1]:
            f = [f for f in cur[2] if f[0] == seg][0]
            q = q + (seg,)
            v, there = getp(want_doc, q)
            if not there: want_doc = put2(want_doc, q, Absent(f[2][0] if f[2] is not None else {}))
            cur = f[1]
        want_doc = put2(want_doc, p, x)
    want_doc = settle(want_doc)
    kind, got = outcome(lambda: hyperstate.loads(cls, ron(d0)))
    what = "%s\nunder the rules %r" % (ron(d0), c["ops"])
    try: want = build(w, s, want_doc)
    except Reject as e:
        return None if kind == "raise" else ("accepted", "%s has %s but was loaded as %r" % (what, e, got))
    if kind == "raise": return ("load-rejected", "%s\nshould load as %r but raised %s" % (what, want, got))
    if not same(want, got): return ("load-wrong", "%s\nshould load as %r but was loaded as %r" % (what, want, got))
class Absent(dict):
    def __copy__(self):
        out = Absent(self.base); out.update(self); return out
    """A struct that the document does not give: its own default, and what rules filled in."""
    def __init__(self, base): dict.__init__(self); self.base = base
def put2(d, path, v):
    if len(path) == 1:
        out = copy.copy(d); out[path[0]] = v; return out
    out = copy.copy(d); out[path[0]] = put2(d[path[0]], path[1:], v); return out
def settle(d):
    if isinstance(d, dict):
        out = {k: settle(v) for k, v in d.items()}
        if isinstance(d, Absent):
            base = d.base if isinstance(d.base, dict) else {}
            return merge(base, out)
        return out
    return d
def merge(a, b):
    out = dict(a)
    for k, v in b.items(): out[k] = merge(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v
    return out

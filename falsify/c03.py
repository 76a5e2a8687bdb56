"""C03: what loads, holds only values of the declared types, converted only between equal numbers or from numeric strings."""
from lib import *
import hyperstate
RULE = "random config classes with a document that is valid except for up to three replaced positions; non-trivial: at least one position was replaced"
JUNK = [None, True, False, 0, 1, 5, -3, 2.0, 0.5, -1.5, 1e300, "", "abc", "1", "2.5", "3.0", "1e3", "3.0000001", "2.9999999999", "7.000000000000001", "-0.0000001", "0.9999", 2.0000001, 2.9999999999, "nan", "x: 1@0 2@10", "A", "small", "no such", [], [1], ["a"], [None], (1,), (1, 2), (1, 2, 3), {}, {"a": 1}, {"zz": 2}, {1: 2}, {"!__name__": "Foo"}, {"!__name__": "A"}, {"!__name__": "Cls1"}, {"!__name__": "Foo", "a": 1}, [[1]], [{}], ("a", 1.5)]
def cases(rng):
    while True:
        g = Gen(rng, defaults=0.3, maxfields=3)
        s = g.cls()
        for _ in range(8):
            d = g.doc(s)
            n = rng.choice([0, 1, 1, 1, 2, 3])
            done = 0
            for _ in range(n):
                ps = [(p, t) for p, t, x in subdocs_ok(s, d) if p]
                if not ps: break
                p, t = rng.choice(ps)
                old = getp(d, p)
                k = rng.random()
                if k < 0.15 and isinstance(old, (tuple, list)): new = type(old)(list(old) + [rng.choice(JUNK)])
                elif k < 0.25 and isinstance(old, (tuple, list)) and len(old) > 1: new = old[:-1]
                elif k < 0.3: new = None
                else: new = rng.choice(JUNK)
                d = put(d, p, new); done += 1
            yield dict(spec=s, doc=d, replaced=done, api=rng.choice(["loads", "loads", "load"]))
def getp(d, p):
    for k in p: d = d[k]
    return d
def subdocs_ok(s, d):
    try: return list(subdocs(s, d))
    except Exception: return []
def nontrivial(c): return c["replaced"] > 0
def check(c):
    w = world(c["spec"]); cls = w.ty(c["spec"])
    text = ron(c["doc"])
    import pyron
    kind, doc = outcome(lambda: pyron.loads(text, preserve_class_names=True))
    if kind == "raise": return None
    if c["api"] == "load":
        with open("f.ron", "w") as f: f.write(text)
        kind, got = outcome(lambda: hyperstate.load(cls, "f.ron"))
    else: kind, got = outcome(lambda: hyperstate.loads(cls, text))
    if kind == "raise":
        try: build(w, c["spec"], doc)
        except Reject: return None
        return ("valid-rejected", "the valid document %s raised %s" % (text, got))
    return bad(w, c["spec"], doc, got, "")
def num(x):
    try: return float(x)
    except ValueError: return None
def bad(w, s, d, v, path):
    """None, or why v is not a value of type s made from d."""
    err = lambda why: ("ill-typed", "at %s: %r was loaded as %r, %s" % (path or "top", d, v, why))
    if isinstance(s, str):
        py = {"int": int, "float": float, "str": str, "bool": bool}[s]
        if not isinstance(v, py): return err("which is not a %s" % s)
        if s == "bool": return None if type(d) is bool and d == v else err("which differs")
        if s == "str": return None if d == v or d == {"!__name__": v} else err("which differs")
        if isinstance(d, (int, float)): return None if d == v or (v != v and d != d) or (s == "float" and float(d) == v) else err("which is not an equal number")
        if isinstance(d, str):
            if "@" in d: return None
            x = num(d)
            return None if x is not None and (x == v or x != x) else err("which is not the number written")
        return err("which is not a conversion between equal numbers")
    k = s[0]
    if k == "opt": return None if d is None and v is None else (err("null for a value") if d is None else bad(w, s[1], d, v, path))
    if k == "list":
        if not isinstance(v, list) or not isinstance(d, list) or len(v) != len(d): return err("not the same list")
        ps = [(s[1], x, y, "%s[%d]" % (path, i)) for i, (x, y) in enumerate(zip(d, v))]
    elif k == "tuple":
        if not isinstance(v, tuple) or not isinstance(d, tuple) or len(v) != len(d) or len(v) != len(s) - 1: return err("not a tuple of that length")
        ps = [(t, x, y, "%s[%d]" % (path, i)) for i, (t, x, y) in enumerate(zip(s[1:], d, v))]
    elif k == "dict":
        if not isinstance(v, dict) or not isinstance(d, dict) or list(map(repr, d)) != list(map(repr, v)): return err("not a dict with the same keys")
        ps = [(s[2], d[q], v[q], "%s.%s" % (path, q)) for q in d]
    elif k == "lit":
        return None if any(v == a for a in s[1:]) and (d == v or d == {"!__name__": v}) else err("not one of the options %r" % (s[1:],))
    elif k == "enum":
        cls = w.ty(s)
        return None if isinstance(v, cls) and v.value == d else err("not the member with that value")
    elif k == "union":
        for a in s[1:]:
            if isinstance(d, dict) and d.get("!__name__") == a[1] and isinstance(v, w.ty(a)): return bad(w, a, d, v, path)
        return err("not the member of the union that was named")
    else:
        cls = w.ty(s)
        if type(v) is not cls: return err("not a %s" % s[1])
        if not isinstance(d, dict): return err("not made from a struct")
        names = {f[0] for f in s[2]}
        for q in d:
            if q not in names and q != "!__name__" and not (q == "version" and s[3] is not None): return err("although it has the unknown field %r" % q)
        ps = []
        for f in s[2]:
            if f[0] in d: ps.append((f[1], d[f[0]], getattr(v, f[0]), path + "." + f[0]))
            else:
                try: want = build(w, ("cls", "X", (f,), None), {})
                except Reject: return err("although field %s is missing" % f[0])
                if not same(getattr(want, f[0]), getattr(v, f[0])): return err("field %s is not its default" % f[0])
    for p in ps:
        r = bad(w, *p)
        if r: return r
    return None

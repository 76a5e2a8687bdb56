"""C01: dump, then load, yields an equal object (strings and files, versioned or not)."""
from lib import *
import hyperstate
RULE = "random config classes over all supported field types with a random full value; non-trivial: the value has at least two leaves"
ELIDE = False
def cases(rng):
    while True:
        g = Gen(rng, versions=0.2)
        s = g.cls(version=rng.choice([None, None, 0, 3]))
        for _ in range(6): yield dict(spec=s, doc=g.doc(s), file=rng.random() < 0.15, elide=ELIDE)
def nontrivial(c): return len(repr(c["doc"])) > 12
def check(c):
    w = world(c["spec"]); cls = w.ty(c["spec"])
    v = build(w, c["spec"], c["doc"])
    kind, text = outcome(lambda: hyperstate.dumps(v, elide_defaults=c["elide"]))
    if kind == "raise": return ("dump-raises", "dumping %r raised %s" % (v, text))
    if c["file"]:
        hyperstate.dump(v, "f.ron", elide_defaults=c["elide"])
        kind, got = outcome(lambda: hyperstate.load(cls, "f.ron"))
    else: kind, got = outcome(lambda: hyperstate.loads(cls, text))
    if kind == "raise": return ("load-raises", "loading the dump of %r raised %s\ndump:\n%s" % (v, got, text))
    if not same(v, got): return ("roundtrip", "loaded %r, but %r was dumped as\n%s" % (got, v, text))
    r = elided(w, c["spec"], c["doc"], text) if c["elide"] else whole(c["spec"], c["doc"], text)
    return r
def whole(s, d, text): return None
def elided(w, s, d, text):
    """A field is left out only if it has a declared default and its value equals it."""
    import pyron
    out = pyron.loads(text, preserve_class_names=True)
    def walk(s, d, o, path):
        if isinstance(s, str) or d is None or o is None: return None
        k = s[0]
        if k == "opt": return walk(s[1], d, o, path)
        if k == "list": ps = [(s[1], x, y, path + (i,)) for i, (x, y) in enumerate(zip(d, o))]
        elif k == "tuple": ps = [(t, x, y, path + (i,)) for i, (t, x, y) in enumerate(zip(s[1:], d, o))]
        elif k == "dict": ps = [(s[2], d[q], o[q], path + (q,)) for q in d if q in o]
        elif k == "union": ps = [([a for a in s[1:] if a[1] == d["!__name__"]][0], d, o, path)]
        elif k == "cls":
            ps = []
            for f in s[2]:
                if f[0] in o: ps.append((f[1], d[f[0]], o[f[0]], path + (f[0],)))
                elif f[2] is None: return ("elided-required", "field %s has no default but is left out of\n%s" % (path + (f[0],), text))
                elif not same(build(w, f[1], f[2][0]), build(w, f[1], d[f[0]])) and build(w, f[1], f[2][0]) != build(w, f[1], d[f[0]]):
                    return ("elided-nondefault", "field %s does not equal its default but is left out of\n%s" % (path + (f[0],), text))
        else: return None
        for p in ps:
            r = walk(*p)
            if r: return r
    return walk(s, d, out, ())

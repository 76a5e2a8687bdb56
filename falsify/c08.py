"""C08: a change reported as compatible never breaks a document that was valid for the old class."""
from lib import *
import hyperstate, io, contextlib
from pairs import *
from hyperstate.schema.schema_checker import SchemaChecker, _dump_schema
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.types import materialize_type, load_schema
RULE = "pairs of config classes that differ by up to three changes, with 12 documents valid for the old one; and pairs of types for the subtype test; non-trivial: the pair differs and is accepted"
def two_enums(rng):
    """Two enums in one field."""
    vals = [0, 1]
    rng.shuffle(vals)
    return ("tuple",) + tuple(("enum", n, tuple(zip(rng.sample(["A", "AA", "AB"], k), vals))) for n, k in (("E1", rng.choice([1, 2])), ("E2", rng.choice([1, 2]))))
def cases(rng):
    while True:
        g = Gen(rng, defaults=0.6, maxdepth=3, maxfields=3)
        s = g.cls(version=1)
        for _ in range(4):
            if rng.random() < 0.1:
                a, b = two_enums(rng), two_enums(rng)
                s0, n = (s[:2] + (((s[2][0][0], x, None),) + s[2][1:],) + s[3:] for x in (a, b))
                yield dict(mode="check", old=s0, new=n, docs=[g.doc(s0, full=i % 4 == 0, drop=0.7) for i in range(8)], dumped=False)
                continue
            n = mutate(rng, g, s)
            if norm(n) == norm(s): continue
            if rng.random() < 0.5:
                o = g.type(1); n2 = step(rng, g, o, 1)
                yield dict(mode="subtype", old=o, new=n2, docs=[g.doc(o, full=i % 3 == 0, drop=0.7) for i in range(8)])
            else:
                yield dict(mode="check", old=s, new=n, docs=[g.doc(s, full=i % 4 == 0, drop=rng.choice([0.5, 1.0])) for i in range(12)], dumped=rng.random() < 0.3)
def nontrivial(c): return True
def check(c):
    wo, wn = World(), World()
    if c["mode"] == "subtype":
        a, b = materialize_type(wo.ty(c["old"])), materialize_type(wn.ty(c["new"]))
        if not a.is_subtype(b): return None
        import dataclasses
        T = dataclasses.make_dataclass("Wrap", [("f", wn.ty(c["new"]))])
        for d in c["docs"]:
            kind, got = outcome(lambda: hyperstate.loads(T, ron({"f": d})))
            if kind == "raise": return ("subtype", "%r is called a subtype of %r, but its value %s does not load as one: %s" % (a, b, ron(d), got))
        return None
    old, new = wo.ty(c["old"]), wn.ty(c["new"])
    if c["dumped"]:
        _dump_schema("s.ron", old)
        so = load_schema("s.ron")
    else: so = materialize_type(old)
    ch = SchemaChecker(so, new)
    if ch.severity() != Severity.INFO: return None
    for d in c["docs"]:
        kind, got = outcome(lambda: hyperstate.loads(new, ron(d)))
        if kind == "raise": return ("compatible", "old %r\nnew %r\nchanges %r are called compatible, but the old document %s does not load: %s" % (c["old"], c["new"], ch.changes, ron(d), got))

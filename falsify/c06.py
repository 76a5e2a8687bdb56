"""C06: rules v, v+1, ... apply once each, in order; everything dumped records the current version; no version, no load."""
from lib import *
import hyperstate, dataclasses, typing
from hyperstate import StateManager, Versioned
from hyperstate.schema.rewrite_rule import RewriteRule
from hyperstate.schema.types import load_schema, Struct
RULE = "random tables of recording rules (sparse, several per version, in any key order) and documents at every version, at the top level and nested; non-trivial: at least one rule applies"
class Rec(RewriteRule):
    def __init__(self, log, v, i, fresh): self.log = log; self.v = v; self.i = i; self.fresh = fresh
    def apply(self, d):
        self.log.append((self.v, self.i))
        if self.fresh:
            d = dict(d); d["trace"] = list(d.get("trace", [])) + [self.v * 100 + self.i]
        else: d.setdefault("trace", []).append(self.v * 100 + self.i)
        return d
    def apply_to_schema(self, schema): self.log.append(("schema", self.v, self.i))
def cases(rng):
    while True:
        n = rng.choice([0, 1, 2, 3, 5, 8])
        table = []
        for v in range(n):
            if rng.random() < 0.6: table.append((v, tuple(rng.random() < 0.5 for _ in range(rng.choice([0, 1, 1, 2, 3])))))
        rng.shuffle(table)
        yield dict(n=n, table=table, v=rng.choice([None] + list(range(n + 1))), where=rng.choice(["top", "top", "top", "nested", "list", "dict", "opt"]), trace=rng.choice([None, [], [-1]]),
                   api=rng.choice(["loads", "load", "manager", "dump", "elide", "unversioned", "schema"]), extra=rng.choice([0, 7]))
def nontrivial(c): return c["v"] is not None and any(v >= c["v"] and r for v, r in c["table"])
def check(c):
    log = []; n = c["n"]
    def rules():
        return {v: [Rec(log, v, i, fresh) for i, fresh in enumerate(rs)] for v, rs in c["table"]}
    V = dataclasses.make_dataclass("V", [("trace", typing.List[int], dataclasses.field(default_factory=list)), ("x", int, dataclasses.field(default=0))], bases=(Versioned,),
        namespace=dict(version=classmethod(lambda k: n), upgrade_rules=classmethod(lambda k: rules())))
    wrap = {"top": None, "nested": V, "list": typing.List[V], "dict": typing.Dict[str, V], "opt": typing.Optional[V]}[c["where"]]
    T = V if wrap is None else dataclasses.make_dataclass("T", [("y", int, dataclasses.field(default=1)), ("v", wrap, dataclasses.field(default=None))])
    def inw(x): return x if wrap is None else {"v": {"nested": x, "opt": x, "list": [x], "dict": {"k": x}}[c["where"]]}
    def out(t): return t if wrap is None else {"nested": lambda: t.v, "opt": lambda: t.v, "list": lambda: t.v[0], "dict": lambda: t.v["k"]}[c["where"]]()
    d = {}
    if c["trace"] is not None: d["trace"] = list(c["trace"])
    if c["extra"]: d["x"] = c["extra"]
    v = c["v"]
    if c["api"] == "schema":
        if v is None: return None
        V._apply_schema_upgrades(Struct("V", {}, v))
        want = [("schema", q, i) for q, rs in sorted(c["table"]) if q >= v for i in range(len(rs))]
        return None if log == want else ("schema-order", "a schema at version %s was upgraded by %r, not %r" % (v, log, want))
    if c["api"] == "unversioned" or v is None:
        text = ron(inw(d))
        with open("f.ron", "w") as f: f.write(text)
        for name, fn in [("loads", lambda: hyperstate.loads(T, text)), ("load", lambda: hyperstate.load(T, "f.ron")), ("manager", lambda: StateManager(T, int, lambda a, b: 0, init_path="f.ron").config)]:
            if name == "manager" and wrap is not None: continue
            kind, got = outcome(fn)
            if kind == "ok": return ("unversioned", "%s of %s, which has no version, gave %r" % (name, text, got))
        kind, got = outcome(lambda: hyperstate.load(V, None))
        if kind == "raise" or got != V(): return ("defaults", "loading without a file gave %s" % (got,))
        return None
    text = ron(inw(dict([("version", v)] + list(d.items())) if c["extra"] else dict(list(d.items()) + [("version", v)])))
    if c["api"] in ("load", "manager"):
        with open("f.ron", "w") as f: f.write(text)
    if c["api"] == "load": kind, got = outcome(lambda: hyperstate.load(T, "f.ron"))
    elif c["api"] == "manager": kind, got = outcome(lambda: StateManager(T, int, lambda a, b: 0, init_path="f.ron").config)
    else: kind, got = outcome(lambda: hyperstate.loads(T, text))
    if kind == "raise": return ("raised", "loading %s with rules %r raised %s" % (text, c["table"], got))
    want = [(q, i) for q, rs in sorted(c["table"]) if q >= v for i in range(len(rs))]
    if log != want: return ("order", "loading %s at version %d applied %r, not %r" % (text, v, log, want))
    got = out(got)
    wt = list(c["trace"] or []) + [q * 100 + i for q, i in want]
    if got.trace != wt or got.x != c["extra"]: return ("result", "loading %s gave %r; the rules make its trace %r" % (text, got, wt))
    obj = V(trace=list(wt), x=3)
    import pyron
    for el in (False, True):
        o = pyron.loads(hyperstate.dumps(obj if wrap is None else T(**inw(obj)), elide_defaults=el))
        if wrap is not None: o = {"nested": lambda: o["v"], "opt": lambda: o["v"], "list": lambda: o["v"][0], "dict": lambda: o["v"]["k"]}[c["where"]]()
        if o.get("version") != n: return ("dumped-version", "the dump (elide=%s) records version %r, not %d" % (el, o.get("version"), n))
    # the dumped text at the current version loads unchanged, with no rule applied
    del log[:]
    back = out(hyperstate.loads(T, hyperstate.dumps(obj if wrap is None else T(**inw(obj)))))
    if log or back != obj: return ("current", "a dump at the current version was changed on load: %r -> %r (%r)" % (obj, back, log))

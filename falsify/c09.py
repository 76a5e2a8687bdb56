"""C09: the checker reports every difference once and nothing else."""
from lib import *
import hyperstate, collections
from pairs import *
from hyperstate.schema.schema_checker import SchemaChecker, _dump_schema
from hyperstate.schema.schema_change import *
from hyperstate.schema.types import materialize_type, load_schema
RULE = "config classes against their own dumped schema, and pairs that differ by up to three changes against a reference list of differences; non-trivial: every case"
def cases(rng):
    while True:
        if rng.random() < 0.4: g = Gen(rng, defaults=0.5, maxdepth=4, maxfields=3, enums=False, unions=False, dicts=False, tuples=False, lists=False)
        else: g = Gen(rng, defaults=0.6, maxdepth=3, maxfields=4, versions=0.1)
        s = g.cls(version=rng.choice([0, 1]))
        for _ in range(4):
            n = s if rng.random() < 0.3 else mutate(rng, g, s, rng.choice([1, 1, 2, 3, 5]))
            yield dict(old=s, new=n, dumped=rng.random() < 0.4)
def check(c):
    wo, wn = World(), World()
    old, new = wo.ty(c["old"]), (wn.ty(c["new"]))
    if c["dumped"]:
        _dump_schema("s.ron", old)
        kind, so = outcome(lambda: load_schema("s.ron"))
        if kind == "raise": return ("schema-unreadable", "the dumped schema of %r does not load: %s" % (c["old"], so))
    else: so = materialize_type(old)
    kind, ch = outcome(lambda: SchemaChecker(so, new))
    if kind == "raise": return ("raised", "checking %r against %r raised %s" % (c["old"], c["new"], ch))
    got = []
    pairs = []
    for x in ch.changes:
        p = tuple(x.field)
        if isinstance(x, FieldAdded): got.append(("added", p))
        elif isinstance(x, FieldRemoved): got.append(("removed", p))
        elif isinstance(x, FieldRenamed): got += [("removed", p), ("added", tuple(x.new_name))]
        elif isinstance(x, DefaultValueChanged): got.append(("default~", p))
        elif isinstance(x, DefaultValueRemoved): got.append(("default-", p))
        elif isinstance(x, TypeChanged): got.append(("type", p))
        elif isinstance(x, EnumVariantAdded): got.append(("var+", p, x.variant))
        elif isinstance(x, EnumVariantRemoved): got.append(("var-", p, x.variant))
        elif isinstance(x, EnumVariantRenamed): got += [("var-", p, x.old_variant_name), ("var+", p, x.new_variant_name)]
        elif isinstance(x, EnumVariantValueChanged): got.append(("var~", p, x.variant, x.old_value, x.new_value))
        elif isinstance(x, LiteralValuesAdded): got.append(("lit+", p, frozenset(x.values)))
        elif isinstance(x, LiteralValuesRemoved): got.append(("lit-", p, frozenset(x.values)))
        else: got.append((type(x).__name__, p))
    want = list(diff(c["old"], c["new"]))
    what = "old %r\nnew %r\nreported %r" % (c["old"], c["new"], ch.changes)
    cg, cw = collections.Counter(got), collections.Counter(want)
    # a variant that was renamed and changed its value is reported as a changed value
    for x in list((cg - cw).elements()):
        if x[0] == "var~":
            gone = ("var-", x[1], x[2])
            came = [y for y in cw if y[0] == "var+" and y[1] == x[1] and value(c["new"], y) == x[4] and cg[y] < cw[y]]
            if cw[gone] > cg[gone] and came: cg[x] -= 1; cg[gone] += 1; cg[came[0]] += 1
    cg = +cg
    if cg != cw: return ("differences", "%s\nmissing %r, unexpected %r" % (what, list((cw - cg).elements()), list((cg - cw).elements())))
    worst = max([x.severity() for x in ch.changes], key=lambda x: x.value, default=Severity.INFO)
    if ch.severity() != worst: return ("severity", "%s\noverall %s" % (what, ch.severity()))
    for x in ch.changes:
        if isinstance(x, FieldRenamed):
            for k, p in (("removed", tuple(x.field)), ("added", tuple(x.new_name))):
                if (k, p) not in cw: return ("rename", what)
def value(s, y):
    """Value of the added variant y = ("var+", path, member) in the new class."""
    vals = []
    def walk(s, p):
        if isinstance(s, str): return
        if s[0] == "enum":
            if p == y[1]: vals.extend(v for n, v in s[2] if n == y[2])
        elif s[0] == "cls":
            for f in s[2]: walk(f[1], p + (f[0],))
        elif s[0] in ("opt", "list", "tuple", "dict", "union"):
            for x in s[1:]: walk(x, p)
    walk(s, ())
    return vals[0] if len(vals) == 1 else (vals and vals[0])

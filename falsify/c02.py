"""C02: dumping with defaults left out loses nothing."""
from lib import *
import c01
RULE = "random config classes with defaults and a random value, in which some fields equal their default; non-trivial: at least one field equals its default"
def cases(rng):
    while True:
        g = Gen(rng, defaults=0.8, versions=0.1, maxdepth=4)
        s = g.cls(version=rng.choice([None, None, 2]))
        for _ in range(6):
            d = full(None, s, g.doc(s, full=False, drop=0.6))
            if rng.random() < 0.3:
                # make one field equal to the default that its name has elsewhere, or equal but of another type
                ps = [(p, t, x) for p, t, x in subdocs(s, d) if p and not isinstance(t, str) and t[0] == "cls"]
                if ps:
                    p, t, x = rng.choice(ps)
                    d = put(d, p, dict(full(None, t, g.doc(t)), **({'!__name__': x['!__name__']} if '!__name__' in x else {})))
            yield dict(spec=s, doc=d, file=rng.random() < 0.1, elide=True)
def nontrivial(c): return any(f[2] is not None and c["doc"].get(f[0]) == f[2][0] for f in c["spec"][2])
check = c01.check

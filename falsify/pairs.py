"""Pairs of config classes, the second made from the first by a few changes, and the reference list of differences."""
from lib import *
def mutate(rng, g, s, n=None):
    for _ in range(n if n is not None else rng.choice([1, 1, 1, 2, 3])): s = step(rng, g, s, 0)
    return s
def step(rng, g, s, depth):
    """One random change somewhere in type s."""
    if isinstance(s, str):
        return rng.choice([x for x in ["int", "float", "str", "bool", ("opt", s), ("list", s), ("lit", "a", "b"), ("lit", 1, 2)] if x != s])
    k = s[0]
    if k == "cls":
        fs = list(s[2])
        c = rng.random()
        i = rng.randrange(len(fs))
        f = fs[i]
        free = [x for x in FIELDS + ["learning_rate", "x__y", "lrate", "dm"] if x not in [y[0] for y in fs]]
        if c < 0.13 and free:
            t = g.type(depth + 2)
            fs.append((rng.choice(free), t, (g.doc(t),) if rng.random() < 0.6 else None))
        elif c < 0.24 and len(fs) > 1: del fs[i]
        elif c < 0.36 and free: fs[i] = (rng.choice(free),) + f[1:]
        elif c < 0.48:
            d = None if f[2] is not None and rng.random() < 0.4 else (g.doc(f[1]),)
            fs[i] = (f[0], f[1], d)
        elif c < 0.55:
            t = g.type(depth + 1)
            fs[i] = (f[0], t, (g.doc(t),) if f[2] is not None else None)
        else:
            t = step(rng, g, f[1], depth + 1)
            d = f[2]
            if d is not None and not ok(t, d[0]): d = (g.doc(t),)
            fs[i] = (f[0], t, d)
        return ("cls", s[1], tuple(fs), s[3])
    if k == "opt":
        if rng.random() < 0.35: return s[1]
        t = step(rng, g, s[1], depth + 1)
        return t if not isinstance(t, str) and t[0] in ("opt", "union") else ("opt", t)
    if k == "list":
        if rng.random() < 0.3: return s[1]
        return ("list", step(rng, g, s[1], depth + 1))
    if k == "dict":
        if rng.random() < 0.3: return ("dict", "int" if s[1] == "str" else "str", s[2])
        return ("dict", s[1], step(rng, g, s[2], depth + 1))
    if k == "tuple":
        if rng.random() < 0.3: return s + ("int",)
        if rng.random() < 0.2 and len(s) > 2: return s[:-1]
        i = rng.randrange(1, len(s))
        return s[:i] + (step(rng, g, s[i], depth + 1),) + s[i + 1:]
    if k == "lit":
        vals = list(s[1:])
        pool = [v for v in (LITS if isinstance(vals[0], str) else [1, 2, 3, 5, 8]) if v not in vals]
        c = rng.random()
        if c < 0.4 and pool: vals.append(rng.choice(pool))
        elif c < 0.7 and len(vals) > 1: vals.pop(rng.randrange(len(vals)))
        elif c < 0.85: return rng.choice(["str" if isinstance(vals[0], str) else "int", "str", "int", ("opt", "str")])
        else: rng.shuffle(vals)
        return ("lit",) + tuple(vals)
    if k == "enum":
        vs = list(s[2])
        c = rng.random()
        names = [n for n in ["A", "B", "C", "small", "big", "bigger", "AA"] if n not in [v[0] for v in vs]]
        pool = [x for x in (["A", "B", "C", "small", "big", "x y"] if isinstance(vs[0][1], str) else [0, 1, 2, 3]) if x not in [v[1] for v in vs]]
        if c < 0.3 and pool: vs.append((rng.choice(names), rng.choice(pool)))
        elif c < 0.5 and len(vs) > 1: vs.pop(rng.randrange(len(vs)))
        elif c < 0.75:
            i = rng.randrange(len(vs)); vs[i] = (rng.choice(names), vs[i][1])
        elif pool:
            i = rng.randrange(len(vs)); vs[i] = (vs[i][0], rng.choice(pool))
        return ("enum", s[1], tuple(vs))
    if k == "union":
        i = rng.randrange(1, len(s))
        if rng.random() < 0.3 and len(s) > 2: return s[:i] + s[i + 1:] if len(s) > 3 else s + (g.cls(depth + 1),)
        return s[:i] + (step(rng, g, s[i], depth + 1),) + s[i + 1:]
    return s
def ok(t, d):
    try: build(World(), t, d); return True
    except Reject: return False
def norm(t):
    """Types up to what the checker calls equal: literals are sets, an enum is its name and variants."""
    if isinstance(t, str): return t
    k = t[0]
    if k == "lit": return ("lit", frozenset(t[1:]))
    if k == "enum": return ("enum", t[1], frozenset(t[2]))
    if k == "cls": return ("cls", t[1], frozenset((f[0], norm(f[1]), None if f[2] is None else repr(key(full(None, f[1], f[2][0])))) for f in t[2]), t[3])
    return (k,) + tuple(norm(x) for x in t[1:])
def key(d):
    """Documents up to equality of the values they denote (1 == 1.0 == True, as in Python)."""
    if isinstance(d, dict): return ("d", tuple(sorted(((k if isinstance(k, str) else repr(k)), key(v)) for k, v in d.items() if k != "version")))
    if isinstance(d, list): return ("l", tuple(map(key, d)))
    if isinstance(d, tuple): return ("t", tuple(map(key, d)))
    if isinstance(d, (int, float)): return ("n", float(d) if abs(d) < 2**53 else d + 0)
    return d
def diff(o, n, path=()):
    """Reference: the multiset of differences, each with the field it belongs to."""
    K = lambda t: t if isinstance(t, str) else t[0]
    if isinstance(o, str) and isinstance(n, str):
        if o != n: yield ("type", path)
        return
    if isinstance(o, str) or isinstance(n, str) or o[0] != n[0]: yield ("type", path); return
    k = o[0]
    if k == "opt" or k == "list":
        for x in diff(o[1], n[1], path): yield x
    elif k == "tuple":
        if len(o) != len(n): yield ("type", path); return
        for a, b in zip(o[1:], n[1:]):
            for x in diff(a, b, path): yield x
    elif k == "dict":
        if o[1] != n[1]: yield ("type", path); return
        for x in diff(o[2], n[2], path): yield x
    elif k == "union":
        if [norm(x) for x in o] != [norm(x) for x in n]: yield ("type", path)
    elif k == "lit":
        if set(n[1:]) - set(o[1:]): yield ("lit+", path, frozenset(set(n[1:]) - set(o[1:])))
        if set(o[1:]) - set(n[1:]): yield ("lit-", path, frozenset(set(o[1:]) - set(n[1:])))
    elif k == "enum":
        a, b = dict(o[2]), dict(n[2])
        for m in b:
            if m not in a: yield ("var+", path, m)
            elif a[m] != b[m]: yield ("var~", path, m, a[m], b[m])
        for m in a:
            if m not in b: yield ("var-", path, m)
    elif k == "cls":
        a = {f[0]: f for f in o[2]}; b = {f[0]: f for f in n[2]}
        cl = lambda t: not isinstance(t, str) and t[0] == "cls"
        for m in b:
            if m not in a:
                for x in leaves("added", b[m], path + (m,)): yield x
            elif cl(a[m][1]) != cl(b[m][1]):
                for x in leaves("removed", a[m], path + (m,)): yield x
                for x in leaves("added", b[m], path + (m,)): yield x
            else:
                for x in diff(a[m][1], b[m][1], path + (m,)): yield x
                if (a[m][2] is None) != (b[m][2] is None):
                    if b[m][2] is None: yield ("default-", path + (m,))
                elif a[m][2] is not None:
                    va, vb = full(None, a[m][1], a[m][2][0]), full(None, b[m][1], b[m][2][0])
                    if key(va) != key(vb): yield ("default~", path + (m,))
        for m in a:
            if m not in b:
                for x in leaves("removed", a[m], path + (m,)): yield x
def leaves(kind, f, path):
    if not isinstance(f[1], str) and f[1][0] == "cls":
        for g in f[1][2]:
            for x in leaves(kind, g, path + (g[0],)): yield x
    else: yield (kind, path)

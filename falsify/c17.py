"""C17: name similarity and edit distance against a direct recursive definition; symmetric, bounded, top for equal names."""
from lib import *
from functools import lru_cache
from hyperstate.schema.schema_checker import name_similarity, levenshtein
RULE = "pairs of names from a small alphabet with underscores and case, many of them edits of one another; non-trivial: the names differ"
def cases(rng):
    alpha = "abAB_c"
    while True:
        a = "".join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 14])))
        if rng.random() < 0.6:
            b = list(a)
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                k = rng.random(); i = rng.randrange(len(b) + 1)
                if k < 0.3: b.insert(i, rng.choice(alpha))
                elif k < 0.6 and b: del b[min(i, len(b) - 1)]
                elif k < 0.8 and b: b[min(i, len(b) - 1)] = rng.choice(alpha)
                elif b: j = min(i, len(b) - 1); b[j] = b[j].swapcase()
            b = "".join(b)
        elif rng.random() < 0.3: b = "".join(w[0:1] for w in a.split("_"))
        else: b = "".join(rng.choice(alpha) for _ in range(rng.randint(1, 9)))
        if not b and rng.random() < 0.9: b = "a"
        yield dict(a=a, b=b)
def nontrivial(c): return c["a"] != c["b"]
def lev(a, b):
    @lru_cache(None)
    def f(i, j):
        if i == 0: return float(j)
        if j == 0: return float(i)
        x, y = a[i - 1], b[j - 1]
        s = 0 if x == y else 0.25 if x.lower() == y.lower() else 1.0
        return min(f(i - 1, j) + 1, f(i, j - 1) + 1, f(i - 1, j - 1) + s)
    return f(len(a), len(b))
def check(c):
    a, b = c["a"], c["b"]
    for x, y in ((a, b), (b, a), (a, ""), ("", b)):
        kind, l = outcome(lambda: levenshtein(x, y))
        if kind == "raise": return ("raised", "levenshtein(%r, %r) raised %s" % (x, y, l))
        if l != lev(x, y): return ("distance", "levenshtein(%r, %r) is %r, not %r" % (x, y, l, lev(x, y)))
        if l > max(len(x), len(y)) or l < 0 or (l == 0) != (x == y): return ("bounds", "levenshtein(%r, %r) is %r" % (x, y, l))
    if not a or not b: return None
    kind, s = outcome(lambda: name_similarity(a, b))
    if kind == "raise": return ("raised", "name_similarity(%r, %r) raised %s" % (a, b, s))
    t, u, top = name_similarity(b, a), name_similarity(a, b), name_similarity(a, a)
    if s != t: return ("symmetry", "name_similarity(%r, %r) is %r but the other way round %r" % (a, b, s, t))
    if s != u: return ("pure", "name_similarity(%r, %r) is %r, then %r" % (a, b, s, u))
    if not 0 <= s <= top: return ("range", "name_similarity(%r, %r) is %r; for equal names it is %r" % (a, b, s, top))
    if top != name_similarity(b, b): return ("top", "name_similarity(%r, %r) is %r, name_similarity(%r, %r) is %r" % (a, a, top, b, b, name_similarity(b, b)))

"""Theory of paths into documents: definitions and lemmas (each proved by induction when a task asks for it)."""
import z3
from pydv.univ import *
from pydv import univ as u
from z3 import And, Or, Not, Implies, If, IntVal, Store, Select

WEAK = '!weak ref'
FA = forall
I = z3.IntSort()


def isd(v):
    return V.is_dict(v)


# ext(d, p, i, c): d after the first i structs on path p were created where absent (c) or weakly created (not c);
# with c, structs that were only created weakly become real
ext = z3.Function('ext', V, SA, I, z3.BoolSort(), V)
WEAKD = V.dict(Store(EMPTY_M, lit(WEAK), V.bool(z3.BoolVal(True))))
NEWD = V.dict(EMPTY_M)


def unweak(v):
    return V.dict(Store(V.m(v), lit(WEAK), V.absent))


def put_unfold(v, p, i, w):
    """putp(v, p, i, w) for i > 0, by its definition."""
    return putp(v, p, i, w) == putp(v, p, i - 1, mset(getp(v, p, i - 1), p[i - 1], w))


def ext_step(e, p, i, c):
    """ext at i + 1 from e = ext at i."""
    x = child(getp(e, p, i), p[i])
    return If(x == V.absent, putp(e, p, i + 1, If(c, NEWD, WEAKD)),
              If(And(c, isd(x), V.m(x)[lit(WEAK)] != V.absent), putp(e, p, i + 1, unweak(x)), e))


def get_unfold(v, p, i):
    """getp(v, p, i) for i > 0, by its definition."""
    return getp(v, p, i) == child(getp(v, p, i - 1), p[i - 1])


def defs():
    """getp and putp at 0; their recursive definitions are instantiated where needed (get_unfold, put_unfold, ext_def)."""
    v, w = z3.Consts('v w', V)
    p = z3.Const('p', SA)
    c = z3.Bool('c')
    j, k = z3.Ints('j k')
    return [FA([v, p, j, k], Implies(And(0 <= j, k == j + 1), getp(v, p, k) == child(getp(v, p, j), p[j])), (getp(v, p, j), getp(v, p, k))),
            FA([v, p], getp(v, p, 0) == v, getp(v, p, 0)),
            FA([v, p, w], putp(v, p, 0, w) == w, putp(v, p, 0, w)),
            FA([v, p, c], ext(v, p, 0, c) == v, ext(v, p, 0, c)),
            FA([v, p, c, j, k], Implies(And(0 <= j, k == j + 1), ext(v, p, k, c) == ext_step(ext(v, p, j, c), p, j, c)), (ext(v, p, j, c), ext(v, p, k, c)))]


def lemma_absent_below(t=None):
    """Below an absent field everything is absent."""
    v, p, j, k = fresh('v', V), fresh('p', SA), fresh('j', I), fresh('k', I)
    if t is not None:
        a = lambda k: Implies(And(0 <= j, child(getp(v, p, j), p[j]) == V.absent), getp(v, p, j + 1 + k) == V.absent)
        t.prove('lemma absent-below: base', [get_unfold(v, p, j + 1)], a(IntVal(0)))
        t.prove('lemma absent-below: step', [k >= 0, a(k), get_unfold(v, p, j + 2 + k)], a(k + 1))
    return FA([v, p, j, k], Implies(And(0 <= j, j < k, child(getp(v, p, j), p[j]) == V.absent), getp(v, p, k) == V.absent), (getp(v, p, j), getp(v, p, k)))


# With ATOM the predicates below are atoms (the lemmas, proved with their definitions, are then facts about the atoms):
# the rules need nothing but the lemmas.
MODE = {'atom': False}
DIC, AGR, NW = z3.Function('dicts', V, SA, I, z3.BoolSort()), z3.Function('agree', SA, SA, I, z3.BoolSort()), z3.Function('noweak', SA, z3.BoolSort())
OPEN = z3.Function('open', V, SA, I, z3.BoolSort())


def dicts(v, p, i):
    """The first i values on the path (from the root) are structs."""
    if MODE['atom']:
        return DIC(v, p, i)
    k = fresh('k', I)
    return FA([k], Implies(And(0 <= k, k < i), isd(getp(v, p, k))), getp(v, p, k))


def agree(p, q, j):
    if MODE['atom']:
        return AGR(p, q, j)
    k = fresh('k', I)
    return FA([k], Implies(And(0 <= k, k < j), p[k] == q[k]), p[k], q[k])


def noweak(p):
    if MODE['atom']:
        return NW(p)
    k = fresh('k', I)
    return FA([k], p[k] != lit(WEAK), p[k])


class Lemmas:
    """Lemmas over getp/putp/ext. Each method proves the lemma once (by induction) and returns a function that
    instantiates it: instance(args) is a quantifier-free (or small) implication."""

    def __init__(self, t):
        self.t, self.done = t, set()

    def once(self, name, steps):
        if name not in self.done:
            self.done.add(name)
            for nm, hyps, goal in steps():
                self.t.prove(f'lemma {name}: {nm}', hyps, goal)

    def absent_below(self, v, p, j, k):
        st = lambda v, p, j, k: Implies(And(0 <= j, j < k, child(getp(v, p, j), p[j]) == V.absent), getp(v, p, k) == V.absent)
        def steps():
            v, p, j, k = fresh('v', V), fresh('p', SA), fresh('j', I), fresh('k', I)
            yield 'base', [get_unfold(v, p, j + 1)], st(v, p, j, j + 1)
            yield 'step', [k > j, st(v, p, j, k), get_unfold(v, p, k + 1)], st(v, p, j, k + 1)
        self.once('absent-below', steps)
        return st(v, p, j, k)

    def agree(self, v, p, q, j):
        """Paths that agree reach the same value."""
        st = lambda v, p, q, j: Implies(And(0 <= j, agree(p, q, j)), getp(v, p, j) == getp(v, q, j))
        def steps():
            v, p, q, j = fresh('v', V), fresh('p', SA), fresh('q', SA), fresh('j', I)
            yield 'base', [], st(v, p, q, IntVal(0))
            yield 'step', [j >= 0, st(v, p, q, j), get_unfold(v, p, j + 1), get_unfold(v, q, j + 1), agree(p, q, j + 1)], getp(v, p, j + 1) == getp(v, q, j + 1)
        self.once('agree', steps)
        return st(v, p, q, j)

    def cong(self, v, w, q, j, m):
        """What lies below equal values is equal."""
        st = lambda v, w, q, j, m: Implies(And(0 <= j, j <= m, getp(v, q, j) == getp(w, q, j)), getp(v, q, m) == getp(w, q, m))
        def steps():
            v, w, q, j, m = fresh('v', V), fresh('w', V), fresh('q', SA), fresh('j', I), fresh('m', I)
            yield 'base', [], st(v, w, q, j, j)
            yield 'step', [m >= j, st(v, w, q, j, m), get_unfold(v, q, m + 1), get_unfold(w, q, m + 1)], st(v, w, q, j, m + 1)
        self.once('below-equal', steps)
        return st(v, w, q, j, m)

    def get_put(self, v, p, i, w):
        """A value that was put is got back."""
        st = lambda v, p, i, w: Implies(And(0 <= i, dicts(v, p, i)), getp(putp(v, p, i, w), p, i) == w)
        def steps():
            v, p, i, w = fresh('v', V), fresh('p', SA), fresh('i', I), fresh('w', V)
            yield 'base', [], st(v, p, IntVal(0), w)
            x = mset(getp(v, p, i), p[i], w)
            yield 'step', [i >= 0, st(v, p, i, x), put_unfold(v, p, i + 1, w), get_unfold(putp(v, p, i + 1, w), p, i + 1), dicts(v, p, i + 1), dicts(v, p, i)], getp(putp(v, p, i + 1, w), p, i + 1) == w
        self.once('get-put', steps)
        return st(v, p, i, w)

    def put_above(self, v, p, i, w, k):
        """Above the value that was put, structs stay structs."""
        st = lambda v, p, i, w, k: Implies(And(0 <= k, k < i, dicts(v, p, i)), isd(getp(putp(v, p, i, w), p, k)))
        def steps():
            v, p, i, w, k = fresh('v', V), fresh('p', SA), fresh('i', I), fresh('w', V), fresh('k', I)
            x = mset(getp(v, p, i), p[i], w)
            yield 'base', [], st(v, p, IntVal(0), w, k)
            yield 'step', [i >= 0, st(v, p, i, x, k), self.get_put(v, p, i, x), put_unfold(v, p, i + 1, w), dicts(v, p, i + 1), dicts(v, p, i), 0 <= k, k < i + 1], isd(getp(putp(v, p, i + 1, w), p, k))
        self.once('put-above', steps)
        return st(v, p, i, w, k)

    def dicts_put(self, v, p, i, w):
        """Structs above a put stay structs."""
        st = lambda v, p, i, w: Implies(And(0 <= i, dicts(v, p, i)), And(dicts(putp(v, p, i, w), p, i), Implies(i > 0, And(isd(v), isd(putp(v, p, i, w))))))
        def steps():
            v, p, i, w, k = fresh('v', V), fresh('p', SA), fresh('i', I), fresh('w', V), fresh('k', I)
            yield 'structs', [0 <= i, dicts(v, p, i), 0 <= k, k < i, self.put_above(v, p, i, w, k)], isd(getp(putp(v, p, i, w), p, k))
            yield 'root', [0 < i, dicts(v, p, i), self.put_above(v, p, i, w, IntVal(0)), getp(v, p, 0) == v], And(isd(v), isd(putp(v, p, i, w)))
        self.once('structs-put', steps)
        return st(v, p, i, w)

    def dicts_open(self, v, p, n):
        st = lambda v, p, n: Implies(And(0 < n, dicts(v, p, n)), self.open_(v, p, n))
        def steps():
            v, p, n = fresh('v', V), fresh('p', SA), fresh('n', I)
            yield 'proof', [getp(v, p, 0) == v], st(v, p, n)
        self.once('path-of-structs', steps)
        return st(v, p, n)

    def present_dicts(self, v, p, n):
        """Above a value that is present there are structs."""
        st = lambda v, p, n: Implies(And(0 < n, getp(v, p, n) != V.absent), dicts(v, p, n))
        def steps():
            v, p, n, k = fresh('v', V), fresh('p', SA), fresh('n', I), fresh('k', I)
            yield 'proof', [0 < n, getp(v, p, n) != V.absent, 0 <= k, k < n, self.absent_below(v, p, k, n)], isd(getp(v, p, k))
        self.once('present-below-structs', steps)
        return st(v, p, n)

    def ext_dicts(self, v, p, n, c):
        st = lambda v, p, n, c: Implies(And(0 < n, self.open_(v, p, n), noweak(p)), dicts(ext(v, p, n - 1, c), p, n))
        def steps():
            v, p, n, c = fresh('v', V), fresh('p', SA), fresh('n', I), z3.Bool('c!0')
            yield 'proof', [0 < n, self.open_(v, p, n), noweak(p), self.ext_inv(v, p, n, c, n - 1)], dicts(ext(v, p, n - 1, c), p, n)
        self.once('created-path-of-structs', steps)
        return st(v, p, n, c)

    def put_put(self, v, p, i, x, w):
        st = lambda v, p, i, x, w: Implies(And(0 <= i, dicts(v, p, i)), putp(putp(v, p, i, x), p, i, w) == putp(v, p, i, w))
        def steps():
            v, p, i, x, w = fresh('v', V), fresh('p', SA), fresh('i', I), fresh('x', V), fresh('w', V)
            y = putp(v, p, i + 1, x)
            x1, w1 = mset(getp(v, p, i), p[i], x), mset(getp(v, p, i), p[i], w)
            yield 'base', [], st(v, p, IntVal(0), x, w)
            yield 'step', [i >= 0, dicts(v, p, i + 1), dicts(v, p, i), st(v, p, i, x1, w1), put_unfold(v, p, i + 1, x), put_unfold(v, p, i + 1, w), put_unfold(y, p, i + 1, w),
                           self.get_put(v, p, i, x1)], putp(y, p, i + 1, w) == putp(v, p, i + 1, w)
        self.once('put-put', steps)
        return st(v, p, i, x, w)

    def put_same(self, v, p, i):
        st = lambda v, p, i: Implies(And(0 <= i, dicts(v, p, i)), putp(v, p, i, getp(v, p, i)) == v)
        def steps():
            v, p, i = fresh('v', V), fresh('p', SA), fresh('i', I)
            yield 'base', [], st(v, p, IntVal(0))
            yield 'step', [i >= 0, dicts(v, p, i + 1), dicts(v, p, i), st(v, p, i), put_unfold(v, p, i + 1, getp(v, p, i + 1)), get_unfold(v, p, i + 1)], putp(v, p, i + 1, getp(v, p, i + 1)) == v
        self.once('put-same', steps)
        return st(v, p, i)

    def ext_same(self, v, p, i):
        """Nothing is created on a path of structs."""
        F = z3.BoolVal(False)
        st = lambda v, p, i: Implies(And(0 <= i, dicts(v, p, i + 1)), ext(v, p, i, F) == v)
        def steps():
            v, p, i = fresh('v', V), fresh('p', SA), fresh('i', I)
            yield 'base', [], st(v, p, IntVal(0))
            yield 'step', [i >= 0, dicts(v, p, i + 2), dicts(v, p, i + 1), st(v, p, i), get_unfold(v, p, i + 1), ext(v, p, i + 1, F) == ext_step(ext(v, p, i, F), p, i, F), isd(getp(v, p, i + 1))], ext(v, p, i + 1, F) == v
            yield 'step, struct reached', [i >= 0, dicts(v, p, i + 2)], isd(getp(v, p, i + 1))
        self.once('no-structs-created', steps)
        return st(v, p, i)

    def frame(self, v, p, i, w, q, j, m):
        """A put leaves paths that branch off before its end as they were."""
        hyp = lambda v, p, i, q, j, m: And(0 <= j, j < i, j < m, dicts(v, p, i), agree(p, q, j), p[j] != q[j])
        st = lambda v, p, i, w, q, j, m: Implies(hyp(v, p, i, q, j, m), getp(putp(v, p, i, w), q, m) == getp(v, q, m))
        def steps():
            v, p, i, w, q, j, m = fresh('v', V), fresh('p', SA), fresh('i', I), fresh('w', V), fresh('q', SA), fresh('j', I), fresh('m', I)
            x = mset(getp(v, p, j), p[j], w)
            pv = putp(v, p, j + 1, w)
            yield 'branches off at the last segment', [hyp(v, p, j + 1, q, j, m), put_unfold(v, p, j + 1, w), dicts(v, p, j), self.get_put(v, p, j, x), self.agree(pv, p, q, j), self.agree(v, p, q, j),
                           get_unfold(pv, q, j + 1), get_unfold(v, q, j + 1), self.cong(pv, v, q, j + 1, m)], getp(pv, q, m) == getp(v, q, m)
            x = mset(getp(v, p, i), p[i], w)
            yield 'branches off earlier', [j < i, hyp(v, p, i + 1, q, j, m), put_unfold(v, p, i + 1, w), dicts(v, p, i), st(v, p, i, x, q, j, m)], getp(putp(v, p, i + 1, w), q, m) == getp(v, q, m)
        self.once('frame-put', steps)
        return st(v, p, i, w, q, j, m)

    def blocked(self, d, p, n):
        """The path leads through a value that is not a struct."""
        k = fresh('k', I)
        return z3.Exists([k], And(1 <= k, k < n, getp(d, p, k) != V.absent, Not(isd(getp(d, p, k)))))

    def open_(self, d, p, n):
        if MODE['atom']:
            return OPEN(d, p, n)
        k = fresh('k', I)
        return And(isd(d), FA([k], Implies(And(0 <= k, k < n), Or(getp(d, p, k) == V.absent, isd(getp(d, p, k)))), getp(d, p, k)))

    def ext_put(self, e, p, i, c, q, m):
        """One step of ext, seen from a path through or past the struct it creates or marks."""

    def ext_inv(self, d, p, n, c, i):
        """While ext works down an open path: structs up to i, and below i nothing changed."""
        def concl(d, p, c, i):
            k = fresh('k', I)
            e = ext(d, p, i, c)
            return And(dicts(e, p, i + 1), FA([k], Implies(k > i, getp(e, p, k) == getp(d, p, k)), getp(e, p, k), getp(d, p, k)))
        st = lambda d, p, n, c, i: Implies(And(0 <= i, i < n, self.open_(d, p, n), noweak(p)), concl(d, p, c, i))
        def steps():
            d, p, n, c, i, k = fresh('d', V), fresh('p', SA), fresh('n', I), z3.Bool('c!0'), fresh('i', I), fresh('k', I)
            yield 'base', [n > 0, self.open_(d, p, n)], concl(d, p, c, IntVal(0))
            e, e1 = ext(d, p, i, c), ext(d, p, i + 1, c)
            x = child(getp(e, p, i), p[i])
            ws = [NEWD, WEAKD, unweak(x)]
            hyps = [0 <= i, i + 1 < n, self.open_(d, p, n), noweak(p), concl(d, p, c, i), get_unfold(e, p, i + 1), get_unfold(d, p, i + 1)]
            hyps += [self.get_put(e, p, i + 1, w) for w in ws]
            yield 'step: structs', hyps + [self.put_above(e, p, i + 1, w, k) for w in ws] + [0 <= k, k < i + 2], isd(getp(e1, p, k))
            yield 'step: below', hyps + [k > i + 1, self.absent_below(d, p, i, k), get_unfold(e1, p, i + 2), get_unfold(e, p, i + 2),
                                         self.cong(e1, e, p, i + 2, k)], getp(e1, p, k) == getp(d, p, k)
        self.once('structs-created', steps)
        return st(d, p, n, c, i)

    def ext_frame(self, d, p, n, c, i, q, j, m):
        """Creating structs on a path leaves the values on paths that branch off as they were."""
        hyp = lambda d, p, n, c, i, q, j, m: And(0 <= i, i < n, 0 <= j, j < m, self.open_(d, p, n), noweak(p), noweak(q), agree(p, q, j), p[j] != q[j])
        st = lambda d, p, n, c, i, q, j, m: Implies(hyp(d, p, n, c, i, q, j, m), getp(ext(d, p, i, c), q, m) == getp(d, q, m))
        def steps():
            d, p, n, c, i, q, j, m = fresh('d', V), fresh('p', SA), fresh('n', I), z3.Bool('c!0'), fresh('i', I), fresh('q', SA), fresh('j', I), fresh('m', I)
            a = (d, p, n, c, i, q, j, m)
            yield 'base', [hyp(d, p, n, c, IntVal(0), q, j, m)], st(d, p, n, c, IntVal(0), q, j, m)
            e, e1 = ext(d, p, i, c), ext(d, p, i + 1, c)
            x = child(getp(e, p, i), p[i])
            ws = [NEWD, WEAKD, unweak(x)]
            ps = [putp(e, p, i + 1, w) for w in ws]
            cases = Or([e1 == e] + [And(e1 == y, x == V.absent) for y in ps[:2]] + [And(e1 == ps[2], isd(x))])
            yield 'step cases', [0 <= i, get_unfold(e, p, i + 1)], cases
            same = getp(e, q, m) == getp(d, q, m)
            g = getp(e1, q, m) == getp(d, q, m)
            D, A, A1, NW = dicts(e, p, i + 1), agree(p, q, j), agree(p, q, i + 1), noweak(q)
            before = lambda w: And(same, 0 <= i, D, 0 <= j, j < i + 1, j < m, A, p[j] != q[j], e1 == putp(e, p, i + 1, w))
            W = fresh('w', V)
            yield 'step, branched off before', [before(W), self.frame(e, p, i + 1, W, q, j, m)], g
            later = lambda w: And(same, 0 <= i, D, j >= i + 1, j < m, A1, NW, e1 == putp(e, p, i + 1, w), isd(x) if w is ws[2] else x == V.absent)
            for w in ws:
                yield 'step, branches off later', [later(w), get_unfold(e, p, i + 1), self.get_put(e, p, i + 1, w),
                    self.agree(e1, p, q, i + 1), self.agree(e, p, q, i + 1), get_unfold(e, q, i + 2), get_unfold(e1, q, i + 2), get_unfold(e, q, i + 1),
                    self.cong(e1, e, q, i + 2, m)], g
            yield 'step, agreement', [A, i + 1 <= j], A1
            yield 'step', [0 <= i, same, D, A, NW, 0 <= j, j < m, p[j] != q[j], cases, Implies(i + 1 <= j, A1)] + [Implies(f(w), g) for f in (before, later) for w in ws], g
            yield 'step, structs', [0 <= i, i + 1 < n, self.open_(d, p, n), noweak(p), self.ext_inv(d, p, n, c, i)], D
        self.once('frame-structs-created', steps)
        return st(d, p, n, c, i, q, j, m)

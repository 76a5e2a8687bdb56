"""C17: the edit distance is the one its recursive definition gives, and the similarity built on it is symmetric and bounded."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from z3 import And, Or, Not, Implies, If, IntVal, RealVal

M = 'hyperstate.schema.schema_checker'
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FA = forall
CH, LEN, LOW = u.strfn('char', Str, I, Str), u.strfn('strlen', Str, I), u.strfn('str.lower', Str, Str)
D = z3.Function('dist', Str, I, Str, I, R)      # distance of the first i characters of a and the first j of b


def cost(x, y):
    return If(x == y, RealVal(0), If(LOW(x) == LOW(y), RealVal('0.25'), RealVal(1)))


def min3(x, y, z):
    m = If(x <= y, x, y)
    return If(m <= z, m, z)


def definition():
    a, b = z3.Consts('a b', Str)
    i, j = z3.Ints('i j')
    return [FA([a, b, j], Implies(j >= 0, D(a, 0, b, j) == j), D(a, 0, b, j)),
            FA([a, b, i], Implies(i >= 0, D(a, i, b, 0) == i), D(a, i, b, 0)),
            FA([a, b, i, j], Implies(And(i >= 0, j >= 0), D(a, i + 1, b, j + 1) == min3(
                D(a, i, b, j + 1) + 1, D(a, i + 1, b, j) + 1, D(a, i, b, j) + cost(CH(a, i), CH(b, j)))), (CH(a, i), CH(b, j)))]


def inv(loop):
    """Rows of the table."""
    fr = loop.env0
    strs = {nm: v for nm, v in fr.items() if isz(v) and v.sort() == Str}
    ints = [nm for nm, v in fr.items() if isz(v) and v.sort() == I]

    def row(get, label):
        for an, a in strs.items():
            for bn, b in strs.items():
                if not an < bn:
                    continue
                for fn in [None] + ints:
                    for off in (0, 1):
                        for swap in (0, 1):
                            def f(v, a=a, b=b, fn=fn, off=off, swap=swap):
                                q = get(v)
                                if not isinstance(q, Seq) or q.shape is None or len(q.leaves) != 1:
                                    return None
                                x = q.leaves[0]
                                k = z3.Int('k')
                                e = x[k]
                                e = e if e.sort() == R else z3.ToReal(e)
                                f_ = (v.i if fn is None else v.env[fn]) + off
                                d = D(a, k, b, f_) if swap else D(a, f_, b, k)
                                return FA([k], Implies(And(0 <= k, k < q.n), e == d), x[k])
                            yield f'{label} is row {fn}+{off} of {an},{bn} {swap}', f
    for nm, sh in loop.vars.items():
        if isinstance(sh, (SSeq, SConst)):
            yield from row(lambda v, nm=nm: v.get(nm), nm)
        if isinstance(sh, SSeq):
            for bn, b in strs.items():
                yield f'{nm} has one entry per prefix of {bn}', lambda v, nm=nm, b=b: toz(v.get(nm).n) == LEN(b) + 1
    for a, c in loop.cells.items():
        if c[0] == 'seq':
            yield from row(lambda v, a=a: v.cell(a), f'list {a}')
            yield 'as many entries as columns done', lambda v, a=a: toz(v.cell(a).n) == v.i + 1


def lemmas(t):
    """Facts about the distance, each by induction; returns them for use."""
    t.engine()
    ax = definition()
    a, b, c = z3.Consts('a b c', Str)
    i, j, k = z3.Ints('i j k')
    at = CH(a, i) == CH(a, i), CH(b, j) == CH(b, j)

    def ind(name, P, hyp=()):
        """P(i, j) for all naturals by induction on i and within it on j."""
        q = lambda i: FA([j], Implies(j >= 0, P(i, j)), D(a, i, b, j))
        t.prove(f'{name}: row 0', ax + list(hyp) + [j >= 0], P(IntVal(0), j))
        step = ax + list(hyp) + [i >= 0, q(i)]
        t.prove(f'{name}: column 0', step, P(i + 1, IntVal(0)))
        ji = z3.Int('ji')
        cell = ax[2].body()
        inst = z3.substitute_vars(ax[2].body(), j, i, b, a)
        t.prove(f'{name}: step', step + [j >= 0, P(i, j), P(i, j + 1), P(i + 1, j), inst, z3.substitute_vars(ax[2].body(), i, j, a, b)], P(i + 1, j + 1))
    ind('non-negative', lambda i, j: D(a, i, b, j) >= 0)
    ind('at most the longer length', lambda i, j: D(a, i, b, j) <= If(i >= j, i, j))
    ind('at least the difference in length', lambda i, j: And(D(a, i, b, j) >= i - j, D(a, i, b, j) >= j - i))
    ind('symmetric', lambda i, j: D(a, i, b, j) == D(b, j, a, i))
    nonneg = FA([i, j], Implies(And(i >= 0, j >= 0), D(a, i, b, j) >= 0), D(a, i, b, j))
    same = lambda i, j: Implies(D(a, i, b, j) == 0, And(i == j, FA([k], Implies(And(0 <= k, k < i), CH(a, k) == CH(b, k)), CH(a, k), CH(b, k))))
    ind('zero only for equal prefixes', same, [nonneg])
    eqp = lambda i: Implies(FA([k], Implies(And(0 <= k, k < i), CH(a, k) == CH(b, k)), CH(a, k)), D(a, i, b, i) == 0)
    t.prove('zero for equal prefixes: base', ax, eqp(IntVal(0)))
    t.prove('zero for equal prefixes: step', ax + [i >= 0, eqp(i), nonneg, FA([j], Implies(j >= 0, D(a, i + 1, b, j) >= 0), D(a, i + 1, b, j)),
            FA([j], Implies(j >= 0, D(a, j, b, i + 1) >= 0), D(a, j, b, i + 1)),
            CH(a, i) == CH(a, i), z3.substitute_vars(ax[2].body(), i, i, b, a), z3.substitute_vars(ax[2].body(), i, i, a, b)], eqp(i + 1))


def facts(st):
    """The lemmas, as assumptions."""
    a, b = z3.Consts('a b', Str)
    i, j = z3.Ints('i j')
    d = D(a, i, b, j)
    ok = And(i >= 0, j >= 0)
    st.assume(FA([a, b, i, j], Implies(ok, And(d >= 0, d <= If(i >= j, i, j), d >= i - j, d >= j - i, d == D(b, j, a, i))), d))


def levenshtein(t):
    ex = t.engine(axioms=definition())
    st = St()
    a, b = fresh('s1', Str), fresh('s2', Str)
    facts(st)
    full = lambda a, b: D(a, LEN(a), b, LEN(b))

    def rec(ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            x, y = list(e.values())[:2]
            ex.str_len(s, x), ex.str_len(s, y)
            ex.oblige(s, 'the recursion ends: the longer name comes first from then on', And(LEN(x) >= LEN(y), LEN(a) < LEN(b)))
            out.append((s, full(x, y)))
        return out
    ex.contracts[f'{M}:levenshtein'] = rec
    ex.loops['*'] = inv
    ex.str_len(st, a), ex.str_len(st, b)

    def ensures(s, r):
        r = toz(r)
        r = r if r.sort() == R else z3.ToReal(r)
        return [('is the edit distance of the two names', r == full(a, b))]
    t.trust('a string is determined by its length and characters; str.lower of a character is a function of it')
    t.check_fn(ex, st, f'{M}:levenshtein', [a, b], ensures)


def name_similarity(t):
    ex = t.engine()
    st = St()
    a, b = fresh('field1', Str), fresh('field2', Str)
    DD = lambda a, b: D(a, LEN(a), b, LEN(b))
    facts(st)

    def lev(ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            x, y = list(e.values())[:2]
            ex.str_len(s, x), ex.str_len(s, y)
            out.append((s, DD(x, y)))
        return out
    ex.contracts[f'{M}:levenshtein'] = lev
    t.assumed.add(f'{M}:levenshtein')
    ex.str_len(st, a), ex.str_len(st, b)
    st.assume(Not(And(LEN(a) == 0, LEN(b) == 0, a != b)))
    fn = repo().get(f'{M}:name_similarity')
    real = lambda r: (lambda z: z if z.sort() == R else z3.ToReal(z))(toz(r))
    tops = []
    for s, r in ex.call_entry(st.fork(), fn, [a, a], {}):
        if isinstance(r, Exc):
            t.prove('name_similarity is defined for equal names', s.pc, z3.BoolVal(False))
        else:
            tops.append((s, real(r)))

    def ensures(s, r):
        r = real(r)
        out = [('is at least 0', r >= 0)]
        for s1, top in tops:
            s1 = s.fork()
            out.append(('is at most its value for equal names', r <= top))
        for s2, r2 in ex.call_entry(s.fork(), fn, [b, a], {}):
            extra = s2.pc[len(s.pc):]
            if isinstance(r2, Exc):
                out.append(('is defined in both orders', Not(And(extra))))
            else:
                out.append(('does not depend on the order of the names', Implies(And(extra), r == real(r2))))
        return out
    t.trust('str.replace, str.split, slicing and str.join are functions of their arguments')
    t.check_fn(ex, st, f'{M}:name_similarity', [a, b], ensures)


TASKS = ['lemmas', 'levenshtein', 'name_similarity']
TECHNIQUE = 'deductive verification of levenshtein and name_similarity against the recursive edit distance (pydv: contracts, loop invariants, induction lemmas, z3/cvc5)'
NOTE = ('Proved for all names: the table computes the recursively defined distance; the distance is non-negative, symmetric, at most the longer length and 0 exactly for equal prefixes; '
        'name_similarity is symmetric, at least 0 and at most its value for equal names.')

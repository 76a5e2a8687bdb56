"""C10: the value of a schedule."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo, Task
from pydv.ex import St, isz, toz
from pydv.loops import isnone, some
from pydv.builtins import math_axioms, PI, COS
from z3 import And, Or, Not, Implies, If, IntVal, RealVal

S = 'hyperstate.schedule'
R = z3.RealSort()
FA = forall


def interpolators(ex, st):
    """The table of interpolation functions, as the code defines it."""
    d = ex.global_name('INTERPOLATORS', st, repo().modules[S])
    return st.heap[d.a].items


def mk_segments(ex, st):
    """An arbitrary list of segments with increasing contiguous positions and values."""
    cls = repo().lookup(repo().modules[S], 'ScheduleSegment')
    opts = [f for _, f in interpolators(ex, st)]
    shape = SRec(cls, {f[0]: (SChoice(opts) if f[0] == 'interpolator' else SLeaf(R)) for f in cls.allfields()})
    n = fresh('nseg', z3.IntSort())
    leaves = [fresh('seg', z3.ArraySort(z3.IntSort(), s)) for s in shape.sorts()]
    q = Seq(n, shape, leaves)
    i = fresh('i', z3.IntSort())
    e, nx = q.at(i), q.at(i + 1)
    st.assume(n >= 1)
    names = [k for k, _ in interpolators(ex, st)]
    st.assume(FA([i], Implies(And(0 <= i, i < n), And(e.attrs['start'] < e.attrs['end'],
              e.attrs['interpolator'].tag >= 0, e.attrs['interpolator'].tag < len(opts))), e.attrs['start']))
    st.assume(FA([i], Implies(And(0 <= i, i + 1 < n), And(e.attrs['end'] == nx.attrs['start'],
              e.attrs['final_value'] == nx.attrs['initial_value'])), e.attrs['end'], e.attrs['final_value']))
    return q, names


def monotone_lemma(t, q, hyps):
    """end(i) <= start(j) for i < j, by induction on j."""
    i, j = z3.Ints('i j')
    end, start = lambda a: q.at(a).attrs['end'], lambda a: q.at(a).attrs['start']
    P = lambda j: FA([i], Implies(And(0 <= i, i < j), end(i) <= start(j)), end(i))
    t.prove('segment order: base', hyps, P(IntVal(0)))
    t.prove('segment order: step', list(hyps) + [0 <= j, j + 1 < q.n, P(j)], P(j + 1))
    return FA([j, i], Implies(And(0 <= i, i < j, j < q.n), end(i) <= start(j)),
                     (end(i), start(j)))


def setup(t):
    ex = t.engine(axioms=math_axioms())
    ex.prover = t.prover
    st = St()
    q, names = mk_segments(ex, st)
    st.assume(monotone_lemma(t, q, list(st.pc)))
    pf = repo().lookup(repo().modules[S], 'PiecewiseFunction')
    self_ = ex.alloc(st, HObj(pf, {'segments': ex.alloc(st, HSeq(q)), 'xname': fresh('xname', Str)}))
    x = fresh('x', R)
    t.trust('floats are real numbers (rounding, infinities and NaN are not modelled)')
    t.trust('math.cos: cos 0 = 1, cos pi = -1, -1 <= cos <= 1')
    return ex, st, q, names, self_, x


def ensure(q, names, x):
    k = fresh('k', z3.IntSort())
    e = q.at(k)
    a, b, ya, yb = (e.attrs[f] for f in ('start', 'end', 'initial_value', 'final_value'))
    tag = e.attrs['interpolator'].tag
    tt = (x - a) / (b - a)
    w = If(tag == names.index('lin'), 1 - tt, If(tag == names.index('cos'), (COS(tt * PI) + 1) / 2, RealVal(1)))
    inr = And(0 <= k, k < q.n)
    first, last = q.at(IntVal(0)), q.at(q.n - 1)

    def f(s, r):
        r = toz(r)
        r = z3.ToReal(r) if r.sort() == z3.IntSort() else r
        return [
            ('is exact at the start of each segment', Implies(And(inr, x == a), r == ya)),
            ('is exact at the last point', Implies(x == last.attrs['end'], r == last.attrs['final_value'])),
            ('keeps the first value before the first point', Implies(x < first.attrs['start'], r == first.attrs['initial_value'])),
            ('keeps the last value after the last point', Implies(x > last.attrs['end'], r == last.attrs['final_value'])),
            ('follows the named interpolation inside a segment', Implies(And(inr, a < x, x < b), r == w * ya + (1 - w) * yb)),
            ('stays between the neighbouring values', Implies(And(inr, a < x, x < b), And(r >= If(ya < yb, ya, yb), r <= If(ya < yb, yb, ya)))),
        ]
    return f


def get_value(t):
    ex, st, q, names, self_, x = setup(t)
    t.check_fn(ex, st, f'{S}:PiecewiseFunction.get_value', [self_, x], ensure(q, names, x))


def index_of(ex, loop, arr):
    """Offset between the loop counter and the index into `arr` of the element it visits."""
    i = fresh('i', z3.IntSort())
    todo = [loop.elem(loop.st0, i)]
    while todo:
        e = todo.pop()
        if isinstance(e, Tup):
            todo += e.items
        elif isz(e) and z3.is_select(e) and e.arg(0).eq(arr):
            return lambda k: z3.substitute(e.arg(1), (i, k))
    return None


def parse_spec(ex, st, text, names, opts):
    """Ghost functions over the words of a schedule: its points and the interpolation in force at each."""
    sp = lit(' ')
    I = z3.IntSort()
    n, arr = u.strfn('str.split.n', Str, Str, I)(text, sp), u.strfn('str.split.a', Str, Str, u.SA)(text, sp)
    at = lit('@')
    has = lambda w: u.strfn('substr', Str, Str, z3.BoolSort())(at, w)
    half = lambda w, k: u.strfn('str.split.a', Str, Str, u.SA)(w, at)[k]
    nhalf = lambda w: u.strfn('str.split.n', Str, Str, I)(w, at)
    pt = lambda i: has(arr[i])
    X, Y = (lambda i: u.str2num(half(arr[i], 1))), (lambda i: u.str2num(half(arr[i], 0)))
    np, pos, itp = z3.Function('npoints', I, I), z3.Function('pointpos', I, I), z3.Function('interp', I, I)
    i, = z3.Ints('i')
    tab = lambda w: z3.Or([w == lit(k) for k in names])
    idx = lambda w: If(w == lit(names[0]), 0, If(w == lit(names[1]), 1, IntVal(2)))
    ax = [np(1) == 0, itp(1) == names.index('lin'),
          FA([i], Implies(i >= 1, And(np(i + 1) == np(i) + If(pt(i), 1, 0), itp(i + 1) == If(pt(i), itp(i), idx(arr[i])),
                                             Implies(pt(i), pos(np(i)) == i))), arr[i])]
    okword = lambda w: If(has(w), And(nhalf(w) == 2, u.isnum(half(w, 0)), u.isnum(half(w, 1))), tab(w))
    segs = lambda q, cnt: [
        q.n == If(cnt > 0, cnt - 1, 0),
    ]
    return dict(n=n, arr=arr, X=X, Y=Y, np=np, pos=pos, itp=itp, ax=ax, okword=okword, pt=pt)


def seg_facts(q, k, sp, opts):
    e = q.at(k)
    p0, p1 = sp['pos'](k), sp['pos'](k + 1)
    tag = z3.Or([And(sp['itp'](p1) == j, e.attrs['interpolator'].tag == jj) for j, f in enumerate(opts)
                 for jj, g in enumerate(e.attrs['interpolator'].options) if same_const(f, g)])
    vals = dict(start=sp['X'](p0), initial_value=sp['Y'](p0), end=sp['X'](p1), final_value=sp['Y'](p1))
    return And([And(Not(isnone(e.attrs[f])), some(e.attrs[f]) == x) for f, x in vals.items()] + [tag])


def parse_schedule(t):
    ex = t.engine(axioms=math_axioms())
    st = St()
    text = fresh('text', Str)
    table = interpolators(ex, st)
    names, opts = [k for k, _ in table], [f for _, f in table]
    t.prove('the interpolations are lin, cos and step', [], z3.BoolVal(sorted(names) == ['cos', 'lin', 'step']))
    sp = parse_spec(ex, st, text, names, opts)
    for a in sp['ax']:
        st.assume(a)
    I = z3.IntSort()

    def cands(loop):
        if not loop.isfor:
            return
        ix = index_of(ex, loop, sp['arr'])
        if ix is None:
            return
        pos, np, itp = sp['pos'], sp['np'], sp['itp']
        cnt = lambda v: np(ix(v.i))
        yield 'points counted', lambda v: And(cnt(v) >= 0, ix(v.i) >= 1)

        def posrange(v):
            k = fresh('k', I)
            return FA([k], Implies(And(0 <= k, k < cnt(v)), And(1 <= pos(k), pos(k) < ix(v.i), np(pos(k)) == k)), pos(k))
        yield 'points precede', posrange
        for nm, sh in loop.vars.items():
            if isinstance(sh, (SMaybe, SLeaf)):
                def isn(v, nm=nm):
                    return isnone(v.get(nm)) == (cnt(v) == 0)
                yield f'{nm} is None before the first point', isn
                for lbl in 'XY':
                    def val(v, nm=nm, lbl=lbl):
                        x = v.get(nm)
                        if x is None:
                            return cnt(v) == 0
                        y = x.val if isinstance(x, Maybe) else x
                        return Implies(cnt(v) > 0, y == sp[lbl](pos(cnt(v) - 1)))
                    yield f'{nm} is {lbl} of the last point', val
            if isinstance(sh, (SChoice, SConst)):
                def interp(v, nm=nm):
                    x = v.get(nm)
                    os = x.options if isinstance(x, Choice) else [x]
                    return z3.Or([And(itp(ix(v.i)) == j, (x.tag == jj) if isinstance(x, Choice) else True) for j, f in enumerate(opts)
                                  for jj, g in enumerate(os) if same_const(f, g)])
                yield f'{nm} is the interpolation in force', interp
        for a, c in loop.cells.items():
            if c[0] == 'seq':
                yield 'one segment per point after the first', lambda v, a=a: toz(v.cell(a).n) == If(cnt(v) > 0, cnt(v) - 1, 0)

                def facts(v, a=a):
                    q = v.cell(a)
                    if q.shape is None:
                        return True
                    k = fresh('k', I)
                    return FA([k], Implies(And(0 <= k, k < q.n), seg_facts(q, k, sp, opts)), q.at(k).attrs['start'])
                yield 'segments join consecutive points', facts
    ex.loops['*'] = cands
    wf = lambda: FA([z3.Int('w')], Implies(And(1 <= z3.Int('w'), z3.Int('w') < sp['n']), sp['okword'](sp['arr'][z3.Int('w')])), sp['arr'][z3.Int('w')])

    def ensures(s, r):
        q = ex.to_seq(s, s.heap[r.a].attrs['segments'])
        k = fresh('k', I)
        cnt = sp['np'](sp['n'])
        out = [('makes one segment per point after the first', toz(q.n) == If(cnt > 0, cnt - 1, 0)),
               ('names the variable by the first word without its colon',
                toz(s.heap[r.a].attrs['xname']) == u.strfn('slice:0:-1', Str, Str)(sp['arr'][0]))]
        if q.shape is not None:
            out.append(('joins each point to the next with the interpolation in force', Implies(And(0 <= k, k < q.n), seg_facts(q, k, sp, opts))))
        return out

    def raises(s, x):
        return [('raises only on malformed words', Not(wf()))] if x.cls.name in ('ValueError', 'KeyError') else None
    t.trust('str.split, str slicing and float(str) are functions of their arguments; s.split(c) has 2 or more parts iff c occurs in s')
    t.check_fn(ex, st, f'{S}:_parse_schedule', [text], ensures, raises)
    # what the parser returns satisfies what get_value relies on, when positions increase
    cls = repo().lookup(repo().modules[S], 'ScheduleSegment')
    shape = SRec(cls, {f[0]: (SChoice(opts) if f[0] == 'interpolator' else SLeaf(R)) for f in cls.allfields()})
    n = fresh('nseg', I)
    q = Seq(n, shape, [fresh('seg', z3.ArraySort(I, s)) for s in shape.sorts()])
    k, j = fresh('k', I), z3.Int('j')
    inc = FA([j], Implies(And(0 <= j, j < n), sp['X'](sp['pos'](j)) < sp['X'](sp['pos'](j + 1))), q.at(j).attrs['start'])
    hyp = [FA([j], Implies(And(0 <= j, j < n), seg_facts(q, j, sp, opts)), q.at(j).attrs['start']), inc, 0 <= k, k < n]
    e, nx = q.at(k), q.at(k + 1)
    t.prove('parsed segments increase', hyp, e.attrs['start'] < e.attrs['end'])
    t.prove('parsed segments are contiguous', hyp + [k + 1 < n], And(e.attrs['end'] == nx.attrs['start'], e.attrs['final_value'] == nx.attrs['initial_value']))


TASKS = ['get_value', 'parse_schedule']

TECHNIQUE = 'deductive verification of the schedule functions (pydv: contracts, loop invariants, z3/cvc5)'
NOTE = 'Proved for all schedules and positions over the reals: get_value, _parse_schedule and the three interpolators. Trusted: float(text), cosine axioms, floats as reals.'

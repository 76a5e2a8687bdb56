"""C11: scheduled fields follow their schedules, and schedules are what is saved."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool
from pydv.builtins import trunc
from contracts.docpath import *
from contracts import docpath, wiring, c07, c13
from contracts.wiring import cls_of
from z3 import And, Or, Not, Implies, If, IntVal

H = 'hyperstate.hyperstate'
R, B, I = z3.RealSort(), z3.BoolSort(), z3.IntSort()
Piece, Obj = z3.DeclareSort('Piece'), z3.DeclareSort('Obj')
PARSE = z3.Function('parse', Str, Piece)
XN = z3.Function('xname', Piece, Str)
GV = z3.Function('get_value', Piece, R, R)
FIELD = z3.Function('field', Obj, Str, R)
UNP = z3.Function('unparsed', V, Str)
SPLITN, SPLITA = u.strfn('str.split.n', Str, Str, I), u.strfn('str.split.a', Str, Str, u.SA)
HASAT = lambda s: u.strfn('substr', Str, Str, B)(lit('@'), s)


def tree(ex, st, path):
    """A tree of schedules (nested dicts; a Schedule is an opaque value), in which no schedule sits above `path`."""
    T = fresh('schedules', V)
    n, P = SPLITN(path, lit('.')), SPLITA(path, lit('.'))
    k = z3.Int('k')
    st.assume(n >= 1, isd(T), FA([k], P[k] != lit(WEAK), P[k]))
    st.assume(FA([k], Implies(And(0 <= k, k < n), Or(getp(T, P, k) == V.absent, And(isd(getp(T, P, k)), V.m(getp(T, P, k))[lit(WEAK)] == V.absent))), getp(T, P, k)))
    return T, n, P


def pieces(ex):
    def attr(ex, st, v, name):
        if name == 'xname':
            return [(st, XN(v))]
        if name == 'get_value':
            def gv(ex, s, a, kw, node):
                x = toz(ex.unwrap(s, a[0] if a else kw['x']))
                return [(s, GV(v, z3.ToReal(x) if x.sort() == I else x))]
            return [(st, Lam(name, gv))]
        return None
    ex.attrs['Piece'] = attr

    def parse(ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            x = ex.unwrap(s, e[list(e)[0]])
            if isz(x) and x.sort() == V:
                ex.oblige(s, 'parses a text', V.is_str(x))
                x = V.s(x)
            s2 = s.fork()
            out += [(s, PARSE(toStr(x))), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'parse'}))]
        return out
    ex.contracts['hyperstate.schedule:_parse_schedule'] = parse


def read(t):
    """ScheduleDeserializer.deserialize, for int fields, float fields and fields of any other type."""
    for name in ('int', 'float', 'other'):
        MODE['atom'] = False
        ex = t.engine(axioms=defs())
        st = St()
        path, value, other = fresh('path', Str), fresh('value', V), fresh('type', Ty)
        cls = {'int': bt('int'), 'float': bt('float'), 'other': other}[name]
        if name == 'other':
            st.assume(other != Ty.TInt, other != Ty.TFlt)
        st.assume(value != V.absent)
        T, n, P = tree(ex, st, path)
        st.assume(lemma_absent_below(t))
        pieces(ex)
        L = Lemmas(t)
        TRUE = z3.BoolVal(True)
        i = z3.Int('i')
        st.assume(FA([i], L.ext_inv(T, P, n, TRUE, i), ext(T, P, i, TRUE)))
        ptr = ex.newdoc(st, T)
        sched = cls_of('Schedule')
        self_ = ex.alloc(st, HObj(cls_of('ScheduleDeserializer'), {'schedules': ptr}))
        objs = {}

        def to_V(ex, s, x):
            if isinstance(x, Ref) and isinstance(s.heap[x.a], HObj) and s.heap[x.a].cls is sched:
                if x.a not in objs:
                    objs[x.a] = fresh('schedule', V)
                return objs[x.a]
            return None
        ex.ext['to_V'] = to_V

        def setattr_(ex, s, v, name, w):
            s.ghost = dict(s.ghost, set=s.ghost.get('set', ()) + ((v, name, w),))
            return [(s, None)]
        ex.ext['setattr'] = ex.ext['setattr:Obj'] = setattr_
        ex.ext['getattr'] = lambda ex, s, v, name, *d: [(s, FIELD(v, toStr(name)))] if isz(v) and v.sort() == Obj else None
        e = lambda i: ext(T, P, i, TRUE)
        ex.loops['*'] = c07.walk_cands(T, P, [('structs created so far', lambda v: v.root(ptr.a) == e(v.i)),
                                             ('struct reached', lambda v: isd(getp(v.root(ptr.a), P, v.i)))])
        is_s = And(V.is_str(value), HASAT(V.s(value))) if name != 'other' else z3.BoolVal(False)
        pc = PARSE(V.s(value))

        def ensures(s, r):
            r = ex.deref(s, r)
            items = r.items
            root = s.heap[ptr.a].root
            s.assume(put_unfold(e(n - 1), P, n, fresh('w', V)))
            done = tobool(items[1])
            out = [('takes exactly texts with @ for numbers', done == is_s), ('does not stop other readers', tobool(items[2]) == False),
                   ('records nothing for anything else', Implies(Not(done), root == T))]
            new = list(objs.items())
            have = [(a, x) for a, x in new if ex.proves(s, root == putp(e(n - 1), P, n, x))]
            if ex.proves(s, Not(done)):
                return out
            out.append(('records exactly one schedule, at the path of the field', Implies(done, Or([root == putp(e(n - 1), P, n, x) for a, x in new] or [z3.BoolVal(False)]))))
            val = (lambda y: y) if name == 'float' else trunc
            got = toz(items[0]) if items[0] is not None else z3.RealVal(0)
            out.append(('gives the field the value of the schedule at 0', Implies(done, got == val(GV(pc, z3.RealVal(0))))))
            for a, x in have[:1]:
                h = s.heap[a].attrs
                up = ex.unwrap(s, h['unparsed'])
                up = V.s(up) if isz(up) and up.sort() == V else toStr(up)
                out.append(('keeps the text of the schedule', Implies(done, up == V.s(value))))
                cfg, state = fresh('config', Obj), fresh('state', Obj)
                for s2, o in ex.call(s.fork(), h['update_value'], [cfg, state], {}, None):
                    if isinstance(o, Exc):
                        ex.oblige(s2, 'updating raises nothing', z3.BoolVal(False))
                        continue
                    sets = s2.ghost.get('set', ())
                    ex.oblige(s2, 'updating sets one field', z3.BoolVal(len(sets) == 1))
                    if len(sets) == 1:
                        o_, nm, w = sets[0]
                        ex.oblige(s2, 'updating sets the field of the struct', And(o_ == cfg, toStr(nm) == P[n - 1]) if isz(o_) and o_.sort() == Obj else z3.BoolVal(False))
                        y = val(GV(pc, FIELD(state, XN(pc))))
                        w = toz(w)
                        ex.oblige(s2, 'updating sets it to the value of the schedule at the variable it names', w == y if w.sort() == y.sort() else z3.BoolVal(False))
            return out
        t.assumed.add('hyperstate.schedule:_parse_schedule')
        t.check_fn(ex, st, f'{H}:ScheduleDeserializer.deserialize', [self_, cls, value, path], ensures,
                   lambda s, x: [('only a schedule can be refused', is_s)] if x.attrs.get('by') == 'parse' else None)



def recorded(t):
    """What the reader leaves: the schedule at its path, and every schedule elsewhere as it was."""
    t.engine(axioms=defs())
    MODE['atom'] = True
    L = Lemmas(None)
    L.once = lambda *a: None               # proved by the task `lemmas`
    T, P, Q, w = fresh('schedules', V), fresh('path', SA), fresh('other', SA), fresh('schedule', V)
    n, m, j = (fresh(x, I) for x in 'nmj')
    TRUE = z3.BoolVal(True)
    e = ext(T, P, n - 1, TRUE)
    T1 = putp(e, P, n, w)
    pre = [n >= 1, L.open_(T, P, n), noweak(P), L.ext_dicts(T, P, n, TRUE), L.get_put(e, P, n, w)]
    t.prove('the schedule is at the path of its field', pre, getp(T1, P, n) == w)
    br = [m >= 1, noweak(Q), 0 <= j, j < n, j < m, agree(P, Q, j), P[j] != Q[j]]
    t.prove('schedules of other fields are kept', pre + br + [L.frame(e, P, n, w, Q, j, m), L.ext_frame(T, P, n, TRUE, n - 1, Q, j, m)], getp(T1, Q, m) == getp(T, Q, m))
    MODE['atom'] = False


def lemmas(t):
    MODE['atom'] = False
    c07.lemmas(t)


def write(t):
    """ScheduleSerializer.serialize: the text of a scheduled field, nothing for any other."""
    ex = t.engine(axioms=defs())
    MODE['atom'] = False
    st = St()
    path = fresh('path', Str)
    T, n, P = tree(ex, st, path)
    g = getp(T, P, n)
    st.assume(Or(g == V.absent, isd(g), V.is_opq(g)))
    st.assume(lemma_absent_below(t))
    schedules(ex)
    self_ = ex.alloc(st, HObj(cls_of('ScheduleSerializer'), {'schedules': ex.newdoc(st, T)}))
    ex.loops['*'] = c07.walk_cands(T, P)

    def ensures(s, r):
        val, done = ex.deref(s, r).items
        done = tobool(done)
        return [('writes the schedule of exactly the scheduled fields', done == V.is_opq(g)),
                ('writes its text', Implies(done, ex.to_V(s, val) == V.str(UNP(g))))]
    t.check_fn(ex, st, f'{H}:ScheduleSerializer.serialize', [self_, fresh('value', V), path, fresh('named', B)], ensures)


def schedules(ex):
    sched = cls_of('Schedule')

    def isinst(ex, s, a, b):
        if b is not sched:
            return None
        a = ex.deref(s, a)
        a = ex.doc_read(s, a) if isinstance(a, DocPtr) else a
        return [(s, V.is_opq(a))] if isz(a) and a.sort() == V else None
    ex.ext['isinstance'] = isinst

    def attr(ex, s, v, name):
        if name == 'unparsed' and ex.proves(s, V.is_opq(v)):
            return [(s, UNP(v))]
        if name == 'update_value' and ex.proves(s, V.is_opq(v)):
            def upd(ex, s, a, kw, node):
                cfg, state = [ex.unwrap(s, ex.deref(s, x)) if isinstance(ex.deref(s, x), Maybe) else ex.deref(s, x) for x in a]
                ex.oblige(s, 'updates from the state', state == STATE if isz(state) and state.sort() == Obj else z3.BoolVal(False))
                s2 = s.fork()
                s.ghost = dict(s.ghost, log=z3.Store(s.ghost['log'], cfg, v, z3.BoolVal(True)))
                return [(s, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'update'}))]
            return [(s, Lam(name, upd))]
        return None
    ex.attrs['V'] = attr


STATE = z3.Const('state', Obj)
SUB = z3.Function('subconfig', Obj, Str, Obj)
LOG = z3.ArraySort(Obj, V, B)
REACH = z3.Function('reaches', Obj, V, Obj, V, B)              # the schedules in a tree, with the struct each updates
RUPTO = z3.Function('reaches.first', Obj, V, I, Obj, V, B)
WF = z3.Function('tree.of.schedules', V, B)


def IN(c0, T, k, c, x):
    v = V.m(T)[k]
    return If(V.is_opq(v), And(c == c0, x == v), And(isd(v), REACH(SUB(c0, k), v, c, x)))


def reach_axioms():
    c0, c, T, x, i = z3.Const('c0', Obj), z3.Const('c', Obj), z3.Const('T', V), z3.Const('x', V), z3.Int('i')
    k = z3.Const('k', Str)
    return [FA([c0, T, c, x], Implies(isd(T), REACH(c0, T, c, x) == RUPTO(c0, T, klen(V.m(T)), c, x)), REACH(c0, T, c, x)),
            FA([c0, T, c, x], RUPTO(c0, T, 0, c, x) == False, RUPTO(c0, T, 0, c, x)),
            FA([T, k], Implies(And(WF(T), isd(T), V.m(T)[k] != V.absent), And(WF(V.m(T)[k]), Or(V.is_opq(V.m(T)[k]), isd(V.m(T)[k])))), (WF(T), V.m(T)[k]))]


def rstep(c0, T, i, c, x):
    return RUPTO(c0, T, i + 1, c, x) == Or(RUPTO(c0, T, i, c, x), IN(c0, T, kat(V.m(T), i), c, x))


def apply(t):
    """_apply_schedules: exactly the schedules of the tree, each on its own struct."""
    ex = t.engine(axioms=reach_axioms())
    st = St()
    T, C, log0 = fresh('schedules', V), fresh('config', Obj), fresh('log', LOG)
    st.assume(isd(T), WF(T))
    c, x, i = z3.Const('c', Obj), z3.Const('x', V), z3.Int('i')
    st.assume(FA([c, x, i], Implies(i >= 0, rstep(C, T, i, c, x)), RUPTO(C, T, i + 1, c, x)))
    j = z3.Int('j')
    st.assume(FA([c, x, i, j], Implies(And(i >= 0, j == i + 1), RUPTO(C, T, j, c, x) == Or(RUPTO(C, T, i, c, x), IN(C, T, kat(V.m(T), i), c, x))), (RUPTO(C, T, i, c, x), RUPTO(C, T, j, c, x))))
    st.ghost['log'] = log0
    schedules(ex)
    old = ex.ext.get('getattr')
    ex.ext['getattr'] = lambda ex, s, v, name, *d: [(s, SUB(v, toStr(name)))] if isz(v) and v.sort() == Obj and not d else None
    q = f'{H}:_apply_schedules'
    first = []

    def rec(ex, s, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(s, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            sa, ca, ta = [ex.deref(s, e[k]) for k in list(e)[:3]]
            ta = ex.to_V(s, ta)
            if not (isz(sa) and sa.sort() == Obj and isz(ca) and ca.sort() == Obj):
                raise Unsupported('arguments of _apply_schedules')
            ex.oblige(s, 'passes the state on', sa == STATE)
            ex.oblige(s, 'passes a tree of schedules on', And(isd(ta), WF(ta)))
            s2 = s.fork()
            new, old = fresh('log', LOG), s.ghost['log']
            s.assume(FA([c, x], z3.Select(new, c, x) == Or(z3.Select(old, c, x), REACH(ca, ta, c, x)), z3.Select(new, c, x)))
            s.ghost = dict(s.ghost, log=new)
            out += [(s, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'update'}))]
        return out
    ex.contracts[q] = rec

    def cands(loop):
        if loop.isfor:
            yield 'applied the first ones', lambda v: FA([c, x], z3.Select(v.st.ghost['log'], c, x) == Or(z3.Select(log0, c, x), RUPTO(C, T, v.i, c, x)), z3.Select(v.st.ghost['log'], c, x))
    ex.loops['*'] = cands

    def ensures(s, r):
        c, x = fresh('c', Obj), fresh('x', V)
        return [('applies exactly the schedules of the tree, each to its own struct', z3.Select(s.ghost['log'], c, x) == Or(z3.Select(log0, c, x), REACH(C, T, c, x)))]
    t.check_fn(ex, st, q, [STATE, C, T], ensures, lambda s, x: [] if x.attrs.get('by') == 'update' else None)


def everywhere(t):
    """Every schedule in the tree, however deep, is reached, with the struct at its path."""
    t.engine(axioms=reach_axioms() + defs())
    c0, T, c, x = fresh('config', Obj), fresh('schedules', V), fresh('c', Obj), fresh('x', V)
    j, i, k = fresh('j', I), fresh('i', I), fresh('k', Str)
    hit = lambda j, i: Implies(And(0 <= j, j < i, IN(c0, T, kat(V.m(T), j), c, x)), RUPTO(c0, T, i, c, x))
    step = rstep(c0, T, i, c, x)
    t.prove('reached by key: base', [], hit(j, IntVal(0)))
    t.prove('reached by key: step', [i >= 0, hit(j, i), step], hit(j, i + 1))
    jk = kidx(V.m(T), k)
    key = lambda c0, T, k, c, x: Implies(And(isd(T), V.m(T)[k] != V.absent, IN(c0, T, k, c, x)), REACH(c0, T, c, x))
    t.prove('reached by key', [klen(V.m(T)) >= 0, hit(jk, klen(V.m(T)))], key(c0, T, k, c, x))
    # along a path of structs
    P, n = fresh('path', SA), fresh('n', I)
    SUBP = z3.Function('subconfig.at', Obj, SA, I, Obj)
    sub = lambda i: SUBP(c0, P, i + 1) == SUB(SUBP(c0, P, i), P[i])
    g = lambda i: getp(T, P, i)
    leaf = And(n >= 1, dicts(T, P, n), V.is_opq(g(n)))
    at = lambda i: Implies(leaf, REACH(SUBP(c0, P, i), g(i), SUBP(c0, P, n - 1), g(n)))
    t.prove('reached along a path: last struct', [leaf, get_unfold(T, P, n), key(SUBP(c0, P, n - 1), g(n - 1), P[n - 1], SUBP(c0, P, n - 1), g(n))], at(n - 1))
    t.prove('reached along a path: struct above', [leaf, 0 <= i, i + 1 < n, at(i + 1), sub(i), get_unfold(T, P, i + 1),
            key(SUBP(c0, P, i), g(i), P[i], SUBP(c0, P, n - 1), g(n))], at(i))
    t.prove('every schedule updates the struct it was read in', [leaf, SUBP(c0, P, 0) == c0, at(IntVal(0))], REACH(c0, T, SUBP(c0, P, n - 1), g(n)))


def step(t):
    """Every step applies the loaded schedules to the state and configuration, before it saves them."""
    from contracts import c12
    from contracts import fs as F
    ex = t.engine(axioms=F.axioms())
    st = St()
    st.ghost['fs'] = fresh('fs', F.FSS)
    st.ghost['applied'] = 0
    F.install(ex, st, t, None)
    ex.crash = lambda s, op, v: None
    self_, g = c12.manager(ex, st)
    val, isint = fresh('val', I), fresh('isint', B)

    def getattr_(ex, s, v, name, *d):
        v = ex.deref(s, v)
        v = ex.unwrap(s, v) if isinstance(v, Maybe) else v
        if isz(v) and v.sort() == c12.Obj:
            return [(s1, val if b else z3.Const('value', c12.NotInt)) for s1, b in ex.split(s, isint)]
        return None
    ex.ext['getattr'] = getattr_
    st.assume(val >= 0, val < 10 ** 12)
    st.assume(Implies(Not(g['nock']), F.Ent.is_dir(st.ghost['fs'][g['ck']])))

    def applied(ex, s, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(s, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            for nm, k, w in (('state', 0, c12.STATE), ('configuration', 1, c12.CFG), ('loaded schedules', 2, g['SCH'])):
                x = ex.deref(s, e[list(e)[k]])
                x = ex.unwrap(s, x) if isinstance(x, Maybe) else x
                ex.oblige(s, f'applies the schedules with the {nm}', wiring.same(x, w))
            s2 = s.fork()
            s.ghost = dict(s.ghost, applied=s.ghost['applied'] + 1)
            out += [(s, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'apply'}))]
        return out
    ex.contracts[f'{H}:_apply_schedules'] = applied

    def ckpt(ex, s, fn, args, kwargs, node):
        ex.oblige(s, 'saves only after applying the schedules', z3.BoolVal(s.ghost['applied'] >= 1))
        s2 = s.fork()
        return [(s, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'dump'}))]
    ex.contracts[f'{H}:StateManager.checkpoint'] = ckpt

    t.assumed |= {f'{H}:_apply_schedules', f'{H}:StateManager.checkpoint'}
    t.check_fn(ex, st, f'{H}:StateManager.step', [self_], lambda s, r: [('a step applies the schedules', z3.BoolVal(s.ghost['applied'] >= 1))], lambda s, x: [])


def checkpoint(t):
    """A checkpoint saves the configuration with the loaded schedules."""
    from contracts import c12
    c12.checkpoint(t)


def load(t):
    wiring.typed_load(t, {'schedules'})


def save(t):
    wiring.typed_dump(t, {'schedules'})


def config(t):
    c13.config(t)


def state(t):
    c13.state(t, ('schedules',))


TASKS = ['read', 'recorded', 'lemmas', 'write', 'apply', 'everywhere', 'step', 'checkpoint', 'load', 'save', 'config', 'state']
TECHNIQUE = ('contract-based deductive verification: ScheduleDeserializer.deserialize (and the update function it makes), ScheduleSerializer.serialize, '
             '_apply_schedules (recursive contract) and the places that read, keep, apply and save schedules; loop invariants and path lemmas by induction; z3 and cvc5')
NOTE = ('Assumed: _parse_schedule and get_value are functions of the text (proved in C10); a path of segments is not a prefix of the path of another '
        'schedule; asdict and from_dict call every (de)serializer with the path of the field (C01 to C04); attribute access on configs and states '
        'does what it says; no field is named "!weak ref"; recursion ends because the tree of schedules is finite.')

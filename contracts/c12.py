"""C12: at every crash point a complete checkpoint of the latest saved step remains."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.ex import St, isz, toz, toStr
from contracts.fs import *
from contracts import fs as F
from z3 import And, Or, Not, Implies, If

H = 'hyperstate.hyperstate'
CFG, STATE = z3.Consts('the.config the.state', Obj)
NOSCH = z3.Const('nosch', Lst)


def complete(e, sch, exact=True):
    """A finished checkpoint of the current config (with its schedules) and state."""
    c, s = Ent.files(e)[lit('config.ron')], Ent.files(e)[lit('state.ron')]
    return And(Ent.is_dir(e), c == FC.dump(CFG, z3.BoolVal(True), sch), s == FC.dump(STATE, z3.BoolVal(False), NOSCH))


def opaque_map(ex, st, name):
    shape = SMap(Str, SLeaf(V))
    m = shape.build([fresh(name, x) for x in shape.sorts()])
    st.assume(*m.facts())
    return ex.alloc(st, HMap(m))


def manager(ex, st):
    """A StateManager at any time: config and state loaded or not."""
    nocfg, nostate, nock, nolast = (fresh(n, B) for n in ('nocfg', 'nostate', 'nockdir', 'nolast'))
    ck, last = fresh('ckdir', Path), fresh('last', Path)
    SCH, SCH0 = fresh('schedules', Lst), fresh('schedules0', Lst)
    key = fresh('checkpoint_key', Str)
    st.assume(Implies(Not(nocfg), SCH0 == SCH))
    o = dict(_config=Maybe(nocfg, CFG), _state=Maybe(nostate, STATE), _schedules=SCH0, _checkpoint_dir=Maybe(nock, ck),
             _last_checkpoint=Maybe(nolast, last), checkpoint_key=key, _deserialize_ctx=opaque_map(ex, st, 'ctx'))
    self_ = ex.alloc(st, HObj(cls_of('StateManager'), dict(o)))
    islazy = fresh('islazy', B)
    old = ex.ext['isinstance']
    lazy = cls_of('Lazy')

    def isinst(ex, s, a, b):
        r = old(ex, s, a, b)
        if r is not None:
            return r
        if isz(a) and a.sort() == Obj and b is lazy:
            return [(s, islazy)]
        if isz(a) and a.sort() == NotInt:
            return [(s, False)]
        return None
    ex.ext['isinstance'] = isinst
    ex.ext['setattr:Obj'] = lambda ex, s, v, name, w: [(s, None)]

    def fails(name, val):
        def f(ex, s, fn, args, kwargs, node):
            s2 = s.fork()
            return [(s, val(s)), (s2, Exc(bt('Exception'), node=node, attrs={'by': name}))]
        return f
    def loads(what):
        # what C13 proves of the properties: they load what is not loaded yet
        def f(ex, s, fn, args, kwargs, node):
            s2 = s.fork()
            h = s.heap[self_.a]
            new = dict(h.attrs, _config=CFG, _schedules=SCH)
            if what is STATE:
                new['_state'] = STATE
            s.heap[self_.a] = HObj(h.cls, new)
            return [(s, what), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
        return f
    for nm, what in (('config', CFG), ('state', STATE)):
        ex.contracts[f'{H}:StateManager.{nm}'] = loads(what)
    ex.contracts[f'{H}:_apply_schedules'] = fails('apply', lambda s: None)
    return self_, dict(ck=ck, nock=nock, last=last, nolast=nolast, SCH=SCH, key=key)


NotInt = z3.DeclareSort('NotInt')


def step(t):
    ex = t.engine(axioms=F.axioms())
    st = St()
    fs0 = fresh('fs', FSS)
    st.ghost['fs'] = fs0
    F.install(ex, st, t, None)
    self_, g = manager(ex, st)
    ck, last, SCH = g['ck'], g['last'], g['SCH']
    val, isint = fresh('val', I), fresh('isint', B)
    st.assume(val >= 0, val < 10 ** 12)
    N = JOIN(ck, fresh('name', Str))
    some = Not(g['nolast'])
    n, p = z3.Const('n', Str), z3.Const('p', Path)

    def getattr_(ex, s, v, name, *d):
        v = ex.deref(s, v)
        v = ex.unwrap(s, v) if isinstance(v, Maybe) else v
        if isz(v) and v.sort() == Obj:
            return [(s1, val if b else z3.Const('value', NotInt)) for s1, b in ex.split(s, isint)] if v.eq(STATE) and name is g['key'] else None
        return None
    ex.ext['getattr'] = getattr_
    # the directory exists; checkpoints of earlier steps in it are complete; the last one is among them
    good = lambda e: And(Ent.is_dir(e), OLD(e))
    st.assume(Ent.is_dir(fs0[ck]), forall([n], Implies(And(ISCK(n), fs0[JOIN(ck, n)] != Ent.nothing), good(fs0[JOIN(ck, n)])), JOIN(ck, n)))
    st.assume(Implies(some, And(PARENT(last) == ck, JOIN(ck, NAME(last)) == last, ISCK(NAME(last)), good(fs0[last]))))
    st.assume(OLD(Ent.dir(EMPTYF)) == False)

    def target(s):
        """Where this step's checkpoint goes: fixed by the name the code builds."""
        return s.ghost.get('target')
    tname = u.cat(lit('latest-'), u.cat(g['key'], FMT12(val)))
    N = JOIN(ck, tname)
    new = lambda e: Or(complete(e, SCH), And(fs0[N] != Ent.nothing, e == fs0[N]))

    def inv(v):
        return [
            ('nothing else is touched', forall([p], Implies(And(fs0[p] != Ent.nothing, p != N, Implies(some, p != last)), v[p] == fs0[p]), v[p])),
            ('no other checkpoint appears', forall([n], Implies(And(ISCK(n), JOIN(ck, n) != N, fs0[JOIN(ck, n)] == Ent.nothing), v[JOIN(ck, n)] == Ent.nothing), v[JOIN(ck, n)])),
            ('never a partial checkpoint', Or(v[N] == fs0[N], complete(v[N], SCH))),
            ('keeps the last checkpoint until the new one is complete', Implies(some, Or(v[last] == fs0[last], And(v[last] == Ent.nothing, last != N, Ent.is_dir(v[N]), new(v[N]))))),
        ]

    def crash(s, op, v):
        for nm, gl in inv(v):
            ex.oblige(s, f'after {op}: {nm}', Implies(Not(g['nock']), gl))
    ex.crash = crash
    ex.contracts[f'{H}:StateManager.checkpoint'] = checkpoint_contract(ex, self_, SCH)
    t.assumed.add(f'{H}:StateManager.checkpoint')
    L = lambda s: s.heap[self_.a].attrs['_last_checkpoint']

    def ensures(s, r):
        v = s.ghost['fs']
        on = Not(g['nock'])
        out = [(nm, Implies(on, gl)) for nm, gl in inv(v)]
        out += [('leaves a complete checkpoint of this step', Implies(on, And(ISCK(NAME(N)), KEY(NAME(N)) == val, v[N] != Ent.nothing, new(v[N])))),
                ('removes the previous checkpoint', Implies(And(on, some, last != N), v[last] == Ent.nothing)),
                ('remembers it', Implies(on, same(L(s), N))),
                ('leaves nothing else behind', forall([p], Implies(And(p != N, Implies(some, p != last)), v[p] == fs0[p]), v[p])),
                ('writes nothing without a checkpoint directory', Implies(g['nock'], v == fs0))]
        return out

    def raises(s, x):
        by = x.attrs.get('by')
        out = [(nm, Implies(Not(g['nock']), gl)) for nm, gl in inv(s.ghost['fs'])]
        l = L(s)
        if isinstance(l, Maybe) or isz(l):
            out.append(('still knows the last checkpoint after an error', Implies(Not(g['nock']), Or(same(l, Maybe(g['nolast'], last)), And(same(l, N), new(s.ghost['fs'][N]))))))
        if by in ('fs', 'load', 'apply', 'dump'):
            return out
        if x.cls.name in ('AssertionError', 'TypeError'):
            return out + [('refuses only keys that are not integers', Not(isint))]
        return None
    t.trust('0 <= checkpoint key < 10**12; entries with the name of a checkpoint are directories; temporary names are fresh')
    t.check_fn(ex, st, f'{H}:StateManager.step', [self_], ensures, raises)


def checkpoint_inv(v, fs0, tgt, sch):
    n, p = z3.Const('n', Str), z3.Const('p', Path)
    q = JOIN(PARENT(tgt), n)
    return [('nothing else is touched', forall([p], Implies(And(fs0[p] != Ent.nothing, p != tgt), v[p] == fs0[p]), v[p])),
            ('never a partial checkpoint', Or(v[tgt] == fs0[tgt], complete(v[tgt], sch))),
            ('no other checkpoint appears', forall([n], Implies(And(ISCK(n), q != tgt, fs0[q] == Ent.nothing), v[q] == Ent.nothing), v[q]))]


def checkpoint_post(v, fs0, tgt, sch):
    p = z3.Const('p', Path)
    return [('leaves a complete checkpoint', complete(v[tgt], sch)), ('leaves nothing else behind', forall([p], Implies(p != tgt, v[p] == fs0[p]), v[p]))]


def checkpoint_contract(ex, self_, sch):
    def f(ex, s, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(s, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            tgt = ex.deref(s, e[list(e)[1]])
            tgt = ex.topath(s, tgt)
            f0 = s.ghost['fs']
            ex.oblige(s, 'checkpoints into an existing directory', And(Ent.is_dir(f0[PARENT(tgt)]), JOIN(PARENT(tgt), NAME(tgt)) == tgt))
            mid = fresh('fs', FSS)
            s1 = s.fork()
            s1.assume(*[g for _, g in checkpoint_inv(mid, f0, tgt, sch)])
            ex.crash(s1, 'part of the checkpoint', mid)
            s1.ghost = dict(s1.ghost, fs=mid)
            out.append((s1, Exc(bt('Exception'), node=node, attrs={'by': 'dump'})))
            for s2, occ in ex.split(s, And(f0[tgt] != Ent.nothing, f0[tgt] != EMPTYD)):
                if occ:
                    out.append((s2, Exc(bt('OSError'), node=node, attrs={'by': 'occupied'})))
                    continue
                end = fresh('fs', FSS)
                s2.assume(*[g for _, g in checkpoint_post(end, f0, tgt, sch)])
                h = s2.heap[self_.a]
                s2.heap[self_.a] = HObj(h.cls, dict(h.attrs, _config=CFG, _schedules=sch, _state=STATE))
                ex.crash(s2, 'the checkpoint', end)
                s2.ghost = dict(s2.ghost, fs=end)
                out.append((s2, None))
        return out
    return f


OLD = z3.Function('complete.of.an.earlier.step', Ent, B)


def checkpoint(t):
    ex = t.engine(axioms=F.axioms())
    st = St()
    fs0 = fresh('fs', FSS)
    st.ghost['fs'] = fs0
    F.install(ex, st, t, None)
    self_, g = manager(ex, st)
    tgt, p, n = fresh('target', Path), z3.Const('p', Path), z3.Const('n', Str)
    ex.reserved = [tgt]
    st.assume(Ent.is_dir(fs0[PARENT(tgt)]), JOIN(PARENT(tgt), NAME(tgt)) == tgt)

    inv = lambda v: checkpoint_inv(v, fs0, tgt, g['SCH'])

    def crash(s, op, v):
        for nm, gl in inv(v):
            ex.oblige(s, f'after {op}: {nm}', gl)
    ex.crash = crash

    def ensures(s, r):
        v = s.ghost['fs']
        return inv(v) + checkpoint_post(v, fs0, tgt, g['SCH'])

    def raises(s, x):
        if x.attrs.get('by') in ('fs', 'load', 'dump', 'apply'):
            return inv(s.ghost['fs'])
        if x.attrs.get('by') == 'occupied':
            return inv(s.ghost['fs']) + [('refuses only an occupied target', And(fs0[tgt] != Ent.nothing, fs0[tgt] != EMPTYD))]
        return None
    t.check_fn(ex, st, f'{H}:StateManager.checkpoint', [self_, STRP(tgt)], ensures, raises)


def move(t):
    ex = t.engine(axioms=F.axioms())
    st = St()
    fs0 = fresh('fs', FSS)
    st.ghost['fs'] = fs0
    F.install(ex, st, t, None)
    src, dst, p = fresh('src', Path), fresh('dst', Path), z3.Const('p', Path)
    st.assume(src != dst, JOIN(PARENT(dst), NAME(dst)) == dst, JOIN(PARENT(src), NAME(src)) == src, Ent.is_dir(fs0[src]), Ent.is_dir(fs0[PARENT(dst)]))

    def inv(v):
        return [('nothing else is touched', forall([p], Implies(And(fs0[p] != Ent.nothing, p != dst, p != src), v[p] == fs0[p]), v[p])),
                ('the target is never partial', Or(v[dst] == fs0[dst], v[dst] == fs0[src])),
                ('the directory exists somewhere', Or(v[src] == fs0[src], z3.Exists([p], v[p] == fs0[src])))]

    def crash(s, op, v):
        for nm, gl in inv(v)[:2]:
            ex.oblige(s, f'after {op}: {nm}', gl)
    ex.crash = crash

    def ensures(s, r):
        v = s.ghost['fs']
        return inv(v)[:2] + [('moves the directory', And(v[dst] == fs0[src], v[src] == Ent.nothing)),
                             ('leaves nothing else behind', forall([p], Implies(And(p != src, p != dst), v[p] == fs0[p]), v[p]))]

    def raises(s, x):
        if x.attrs.get('by') in ('fs', 'occupied'):
            return inv(s.ghost['fs'])[:2] + ([('refuses only an occupied target', And(fs0[dst] != Ent.nothing, fs0[dst] != EMPTYD))] if x.attrs['by'] == 'occupied' else [])
        return None
    t.check_fn(ex, st, f'{H}:atomic_move', [STRP(src), STRP(dst)], ensures, raises)


TASKS = ['step', 'checkpoint', 'move']

TECHNIQUE = ('contract-based deductive verification: StateManager.step, checkpoint and atomic_move are executed symbolically over a ghost file '
             'system; after every operation (and in the middle of every operation that is not atomic) the crash invariant is an obligation; z3 and cvc5')
NOTE = ('Assumed: contracts of os, shutil, tempfile, uuid and pathlib operations (in contracts/fs.py), string and path facts, 0 <= key < 10^12, '
        'checkpoint_key without separators, no foreign file under the exact name of a checkpoint, moves within one file system are atomic. '
        'The configuration and state properties and _typed_dump are used by contract.')

"""C13: a restart resumes from the newest automatic checkpoint, config and state together."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from contracts.fs import *
from contracts import fs as F
from contracts import wiring
from contracts.wiring import LOADED, manager as wmanager, paths, pick
from contracts.c12 import CFG, STATE, opaque_map
from z3 import And, Or, Not, Implies, If

H = 'hyperstate.hyperstate'
NOT = lambda x: Not(x) if z3.is_expr(x) else not x


def good(p):
    """An automatic checkpoint: a directory with the name of one."""
    return And(ISDIR(p), ISCK(NAME(p)))


def opt(v, nm, sort):
    """A variable that may be None, at some iteration."""
    x = v.get(nm)
    if x is None:
        return Maybe(z3.BoolVal(True), z3.Const('unset:' + str(sort), sort))
    return x if isinstance(x, Maybe) else Maybe(z3.BoolVal(False), toz(x))


def find_latest(t):
    ex = t.engine(axioms=F.axioms())
    st = St()
    D, n = fresh('dir', Path), fresh('n', I)
    arr = fresh('entries', z3.ArraySort(I, Path))
    there = fresh('there', B)
    i_ = z3.Int('i')
    st.assume(n >= 0, Implies(Not(there), n == 0))
    x = z3.Const('x', Str)
    st.assume(forall([x], Implies(ISINT(SL12(x)), KEY(x) >= 0), SL12(x)))
    t.trust('Path.iterdir lists the entries of the directory, in any order; what follows the checkpoint key in a name is not a negative number')

    def attr(ex, s, v, name):
        if name == 'name':
            return [(s, NAME(v))]
        if name == 'exists':
            return [(s, Lam(name, lambda ex, s, a, k, nd: [(s, there if v.eq(D) else fresh('exists', B))]))]
        if name == 'is_dir':
            return [(s, Lam(name, lambda ex, s, a, k, nd: [(s, there if v.eq(D) else ISDIR(v))]))]
        if name == 'iterdir' and v.eq(D):
            def it(ex, s, a, k, nd):
                return [(s1, Seq(n, SLeaf(Path), [arr], 0, 'list')) if b else (s1, Exc(bt('FileNotFoundError'), node=nd)) for s1, b in ex.split(s, there)]
            return [(s, Lam(name, it))]
        return None
    ex.attrs['Path'] = attr
    ex.ext['os.listdir'] = lambda ex, s, a, k, nd: [(s, Seq(n, SLeaf(Str), [z3.Lambda([i_], NAME(arr[i_]))], 0, 'list'))]

    def cands(loop):
        j = z3.Int('j')
        # pairs of variables that may hold the best key and the best entry so far
        P = [nm for nm, sh in loop.vars.items() if isinstance(sh, SMaybe) and isinstance(sh.inner, SLeaf) and sh.inner.sort == Path]
        K = [nm for nm, sh in loop.vars.items() if isinstance(sh, SMaybe) and isinstance(sh.inner, SLeaf) and sh.inner.sort == I]
        Z = [nm for nm, sh in loop.vars.items() if isinstance(sh, SLeaf) and sh.sort == I]
        for b in P:
            yield f'{b} is a checkpoint seen', lambda v, b=b: Implies(Not(opt(v, b, Path).isnone), And(good(opt(v, b, Path).val), z3.Exists([j], And(0 <= j, j < v.i, arr[j] == opt(v, b, Path).val))))
            yield f'{b} is the newest so far', lambda v, b=b: forall([j], Implies(And(0 <= j, j < v.i, good(arr[j])), And(Not(opt(v, b, Path).isnone), KEY(NAME(arr[j])) <= KEY(NAME(opt(v, b, Path).val)))), arr[j])
            for a in K:
                yield f'{a} goes with {b}', lambda v, a=a, b=b: And(opt(v, a, I).isnone == opt(v, b, Path).isnone, Or(opt(v, b, Path).isnone, opt(v, a, I).val == KEY(NAME(opt(v, b, Path).val))))
            for a in Z:
                yield f'{a} goes with {b} (with a start value)', lambda v, a=a, b=b: If(opt(v, b, Path).isnone, v.get(a) < 0, v.get(a) == KEY(NAME(opt(v, b, Path).val)))
    ex.loops['*'] = cands

    def ensures(s, r):
        r = ex.deref(s, r)
        j = fresh('j', I)
        isn = r.isnone if isinstance(r, Maybe) else z3.BoolVal(r is None)
        val = r.val if isinstance(r, Maybe) else r
        out = [('finds a checkpoint if there is one', Implies(And(0 <= j, j < n, good(arr[j])), Not(isn)))]
        if val is not None:
            k = z3.Int('k')
            out += [('finds only checkpoints in the directory', Implies(Not(isn), And(good(val), z3.Exists([k], And(0 <= k, k < n, arr[k] == val))))),
                    ('finds the newest checkpoint', Implies(And(0 <= j, j < n, good(arr[j])), KEY(NAME(arr[j])) <= KEY(NAME(val))))]
        return out
    t.check_fn(ex, st, f'{H}:find_latest_checkpoint', [D], ensures, None)


FOUND_NONE = z3.Function('no.checkpoint.in', Path, B)
FOUND = z3.Function('newest.checkpoint.in', Path, Path)


def init(t):
    """A new manager: what it resumes from, and nothing loaded yet."""
    for asstr in (False, True):
        ex = t.engine(axioms=F.axioms())
        st = St()
        fs0 = fresh('fs', FSS)
        st.ghost['fs'] = fs0
        F.install(ex, st, t, None)
        ex.crash = lambda s, op, v: None
        noinit, nock = fresh('noinit', B), fresh('nock', B)
        pi, pc = fresh('init', Path), fresh('ckdir', Path)
        w = (lambda p: STRP(p)) if asstr else (lambda p: p)
        p = z3.Const('p', Path)

        def find(ex, s, fn, args, kwargs, node):
            out = []
            for s, e in ex.bind_args(s, fn, args, kwargs, node):
                if isinstance(e, Exc):
                    out.append((s, e))
                    continue
                d = ex.topath(s, e[list(e)[0]])
                ex.oblige(s, 'looks for checkpoints in a directory that exists', Ent.is_dir(s.ghost['fs'][d]))
                s.assume(Implies(Not(FOUND_NONE(d)), ISCK(NAME(FOUND(d)))))
                out.append((s, Maybe(FOUND_NONE(d), FOUND(d))))
            return out
        ex.contracts[f'{H}:find_latest_checkpoint'] = find
        t.assumed.add(f'{H}:find_latest_checkpoint')
        ov = Maybe(fresh('noov', B), fresh('overrides', Lst))
        c, s_, ini = z3.Const('clz', ClsS), z3.Const('scls', ClsS), z3.Const('initial_state', Obj)
        ign, key = fresh('ignore', B), fresh('key', Str)
        self_ = ex.alloc(st, HObj(cls_of('StateManager'), {}))

        def ensures(s, r):
            a = s.heap[self_.a].attrs
            L = a['_last_checkpoint']
            return [('resumes from the newest checkpoint in the directory', same(L, Maybe(Or(nock, FOUND_NONE(pc)), FOUND(pc)))),
                    ('keeps the checkpoint directory', same(a['_checkpoint_dir'], Maybe(nock, pc))),
                    ('keeps the initial path', same(a['init_path'], Maybe(noinit, pi))),
                    ('keeps the classes', And(same(a['config_cls'], c), same(a['state_cls'], s_))),
                    ('keeps the overrides', same(a['overrides'], ov)),
                    ('keeps the initial state function', same(a['_initial_state'], ini)),
                    ('keeps whether extra fields are ignored', same(a['ignore_extra_fields'], ign)),
                    ('keeps the checkpoint key', same(a['checkpoint_key'], key)),
                    ('has loaded nothing yet', z3.BoolVal(a['_config'] is None and a['_state'] is None))]

        def raises(s, x):
            return [] if x.attrs.get('by') in ('fs', 'occupied') else None
        t.check_fn(ex, st, f'{H}:StateManager.__init__', [self_, c, s_, ini], ensures, raises,
                   kwargs=dict(init_path=Maybe(noinit, w(pi)), checkpoint_dir=Maybe(nock, w(pc)), overrides=ov, ignore_extra_fields=ign, checkpoint_key=key))


def load_config(t):
    wiring.load_config(t, {'resume', 'overrides'})


def loaded_manager(ex, st):
    """A manager whose config and state may be loaded already."""
    o, self_ = wmanager(ex, st)
    nocfg, nostate = fresh('nocfg', B), fresh('nostate', B)
    SCH, SCH0 = fresh('schedules', Lst), fresh('schedules0', Lst)
    st.assume(Implies(Not(nocfg), SCH0 == SCH))
    ctx = opaque_map(ex, st, 'ctx')
    h = st.heap[self_.a]
    st.heap[self_.a] = HObj(h.cls, dict(h.attrs, _config=Maybe(nocfg, CFG), _state=Maybe(nostate, STATE), _schedules=SCH0, _deserialize_ctx=ctx))
    islazy = fresh('islazy', B)
    lazy = cls_of('Lazy')
    old = ex.ext.get('isinstance')
    ex.ext['isinstance'] = lambda ex, s, a, b: [(s, islazy)] if isz(a) and a.sort() == Obj and b is lazy else old(ex, s, a, b) if old else None

    def setattr_(ex, s, v, name, w):
        s.ghost = dict(s.ghost)
        s.ghost[('set', name)] = (v, w)
        return [(s, None)]
    ex.ext['setattr:Obj'] = setattr_
    st.ghost['loads'] = 0
    st.ghost['applied'] = ()

    def lc(ex, s, fn, args, kwargs, node):
        s.ghost = dict(s.ghost, loads=s.ghost['loads'] + 1)
        s2 = s.fork()
        return [(s, Tup([CFG, SCH])), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
    ex.contracts[f'{H}:StateManager._load_config'] = lc
    return o, self_, dict(nocfg=nocfg, nostate=nostate, SCH=SCH, SCH0=SCH0, islazy=islazy, ctx=ctx)


def load_state(t):
    ex = t.engine()
    st = St()
    paths(ex)
    o, self_, g = loaded_manager(ex, st)
    INITIAL = z3.Function('initial', Obj, Obj)
    last, ini = o['_last_checkpoint'], o['init_path']
    ckpt = Maybe(And(last.isnone, Or(ini.isnone, Not(ISDIR(ini.val)))), If(last.isnone, ini.val, last.val))
    unwrap = lambda s, x: ex.unwrap(s, ex.deref(s, x)) if isinstance(ex.deref(s, x), Maybe) else ex.deref(s, x)

    def initial(ex, s, args, kw, node):
        ex.oblige(s, 'makes a new state only when there is no checkpoint', ckpt.isnone)
        ex.oblige(s, 'makes the new state from the configuration', same(unwrap(s, args[0]), CFG))
        ex.oblige(s, 'makes the new state with the context', z3.BoolVal(same_const(args[1], g['ctx'])))
        s2 = s.fork()
        return [(s, INITIAL(CFG)), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
    h = st.heap[self_.a]
    st.heap[self_.a] = HObj(h.cls, dict(h.attrs, _initial_state=Lam('initial_state', initial)))

    def tl(ex, s, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(s, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            ex.oblige(s, 'reads the state beside the configuration', And(Not(ckpt.isnone), same(e['file'], JOIN(ckpt.val, lit('state.ron')))))
            ex.oblige(s, 'loads the state class', same(e['clz'], o['state_cls']))
            ex.oblige(s, 'gives the configuration to the state', same(unwrap(s, e['config']), CFG) if e['config'] is not None else FALSE)
            ex.oblige(s, 'reads the text of the file only', z3.BoolVal(e['data'] is None))
            ex.oblige(s, 'passes on whether extra fields are ignored', same(e['ignore_extra_fields'], o['ignore_extra_fields']))
            ov = ex.deref(s, e['overrides'])
            ex.oblige(s, 'overrides nothing in the state', z3.BoolVal(ov is None or isinstance(ov, Ref) and isinstance(s.heap[ov.a], HList) and not s.heap[ov.a].items))
            s2 = s.fork()
            out += [(s, Tup([LOADED(o['state_cls']), fresh('schedules', Lst)])), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
        return out
    ex.contracts[f'{H}:_typed_load'] = tl
    t.assumed |= {f'{H}:_typed_load', f'{H}:StateManager._load_config'}

    def ensures(s, r):
        a = s.heap[self_.a].attrs
        return [('returns the state of the checkpoint, or else the initial state', same(unwrap(s, r), If(ckpt.isnone, INITIAL(CFG), LOADED(o['state_cls'])))),
                ('has loaded the configuration', And(same(a['_config'], CFG), same(a['_schedules'], g['SCH']))),
                ('loads the configuration once', z3.BoolVal(s.ghost['loads'] <= 1))]
    t.check_fn(ex, st, f'{H}:StateManager._load_state', [self_], ensures, lambda s, x: [] if x.attrs.get('by') == 'load' else None)


FALSE = z3.BoolVal(False)


def config(t):
    ex = t.engine()
    st = St()
    paths(ex)
    o, self_, g = loaded_manager(ex, st)

    def ensures(s, r):
        a = s.heap[self_.a].attrs
        r = ex.deref(s, r)
        return [('is the loaded configuration', same(r, CFG)), ('is kept with its schedules', And(same(a['_config'], CFG), same(a['_schedules'], g['SCH']))),
                ('is loaded once', z3.BoolVal(s.ghost['loads'] == 0) if not s.ghost['loads'] else And(g['nocfg'], z3.BoolVal(s.ghost['loads'] == 1)))]
    t.assumed.add(f'{H}:StateManager._load_config')
    t.check_fn(ex, st, f'{H}:StateManager.config', [self_], ensures, lambda s, x: [] if x.attrs.get('by') == 'load' else None)


def state(t, aspects=('resume',)):
    ex = t.engine()
    st = St()
    paths(ex)
    o, self_, g = loaded_manager(ex, st)

    def ls(ex, s, fn, args, kwargs, node):
        s2 = s.fork()
        h = s.heap[self_.a]
        s.heap[self_.a] = HObj(h.cls, dict(h.attrs, _config=CFG, _schedules=g['SCH']))
        s.ghost = dict(s.ghost, sloads=s.ghost.get('sloads', 0) + 1)
        return [(s, STATE), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
    ex.contracts[f'{H}:StateManager._load_state'] = ls

    def apply(ex, s, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(s, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            if 'schedules' in aspects:
                for nm, k, w in (('state', 0, STATE), ('configuration', 1, CFG), ('loaded schedules', 2, g['SCH'])):
                    x = ex.deref(s, e[list(e)[k]])
                    x = ex.unwrap(s, x) if isinstance(x, Maybe) else x
                    ex.oblige(s, f'applies the schedules with the {nm}', same(x, w))
            s.ghost = dict(s.ghost, applied=s.ghost['applied'] + (1,))
            s2 = s.fork()
            out += [(s, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'apply'}))]
        return out
    ex.contracts[f'{H}:_apply_schedules'] = apply

    def ensures(s, r):
        a = s.heap[self_.a].attrs
        r = ex.deref(s, r)
        n = s.ghost.get('sloads', 0)
        out = []
        if 'resume' in aspects:
            out += [('is the loaded state', same(r, STATE)), ('is kept', same(a['_state'], STATE)), ('has its configuration', Implies(g['nostate'], And(same(a['_config'], CFG), same(a['_schedules'], g['SCH'])))),
                    ('is loaded once', g['nostate'] if n == 1 else z3.BoolVal(n == 0))]
        if 'schedules' in aspects:
            out.append(('applies the schedules when the state is loaded', Implies(g['nostate'], z3.BoolVal(len(s.ghost['applied']) >= 1))))
        if 'lazy' in aspects:
            w = s.ghost.get(('set', '_deserialize_ctx'))
            ok = FALSE
            if w is not None:
                x = s.heap[w[1].a] if isinstance(w[1], Ref) else None
                ok = z3.BoolVal(isinstance(x, HMap) and x.m is s.heap[g['ctx'].a].m and w[0].eq(STATE))
            out.append(('gives a lazy state the context', Implies(And(g['nostate'], g['islazy']), ok)))
        return out
    t.assumed |= {f'{H}:_apply_schedules', f'{H}:StateManager._load_state'}
    t.check_fn(ex, st, f'{H}:StateManager.state', [self_], ensures, lambda s, x: [] if x.attrs.get('by') in ('load', 'apply') else None)


TASKS = ['find_latest', 'init', 'load_config', 'load_state', 'config', 'state']
TECHNIQUE = ('contract-based deductive verification: find_latest_checkpoint (loop invariants over any directory contents), StateManager.__init__, '
             'the checkpoint_dir setter, _load_config, _load_state and the config and state properties, each against its contract; z3 and cvc5')
NOTE = ('Assumed: pathlib operations list and describe the directory as it is, keys in names are not negative, _typed_load by contract (its own wiring '
        'is proved with C05, C06, C11 and C15). The content of config.ron and state.ron is the business of C01 to C05.')

"""C15: lazy fields are read on first access, once, and never by unsafe means."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from contracts.wiring import Path, Obj, ClsS, Lst, JOIN, same, cls_of, tobool_
from contracts import wiring
from z3 import And, Or, Not, Implies, If

I, B = z3.IntSort(), z3.BoolSort()
L, MT = 'hyperstate.lazy', 'hyperstate.msgpack_torch'
LazyS, SuperS, ADictS, FileS, EnvS = (z3.DeclareSort(n) for n in ('LazyObj', 'Super', 'AttrDict', 'BlobFile', 'Environ'))
DATA = z3.Function('blob.data', Path, V)           # what the bytes of a blob decode to
BYTES = z3.Function('blob.bytes', Path, V)
VALUE = z3.Function('deserialized', ClsS, V, V)
FALSE = z3.BoolVal(False)
UNL, CTX = '_unloaded_lazy_fields', '_deserialize_ctx'
PATHS = z3.ArraySort(Path, I)
ENTRY = lambda: SMap(Str, STup([SLeaf(ClsS), SMaybe(SLeaf(Obj)), SLeaf(Path), SLeaf(B)]))


def fails(s, node, by, cls='Exception'):
    return (s.fork(), Exc(bt(cls), node=node, attrs={'by': by}))


def lazy_object(t, name_is_field=True):
    """An arbitrary lazy object: some fields still unloaded, some set, any context."""
    ex = t.engine()
    st = St()
    self_ = z3.Const('self', LazyS)
    has, hasctx, opt = fresh('has.unloaded', B), fresh('has.ctx', B), fresh('unsafe.allowed', B)
    m0 = ENTRY().build([fresh('unloaded', x) for x in ENTRY().sorts()])
    st.assume(*m0.facts())
    unl = ex.alloc(st, HMap(m0))
    cshape = SMap(Str, SLeaf(V))
    cm = cshape.build([fresh('ctx', x) for x in cshape.sorts()])
    st.assume(*cm.facts())
    ctx = ex.alloc(st, HMap(cm))
    name = fresh('name', Str)
    st.assume(name != lit(UNL), name != lit(CTX))
    st.ghost['attrs'] = fresh('attrs', u.M)
    st.ghost['reads'] = z3.K(Path, z3.IntVal(0))
    st.ghost['snap'] = None
    t.trust('fields are not named _unloaded_lazy_fields or _deserialize_ctx; a deserializer does not access its own field')
    t.trust('open, msgpack.unpack and pickle.load do what their names say and may fail')
    special = {UNL: (has, unl), CTX: (hasctx, ctx)}
    g = dict(self_=self_, has=has, hasctx=hasctx, opt=opt, m0=m0, unl=unl, cm=cm, ctx=ctx, name=name)

    def read(ex, s, n, node):
        """The attribute as the object itself has it."""
        n = ex.deref(s, n)
        if isinstance(n, str) and n in special:
            b, r = special[n]
            return [(s1, r if ok else Exc(bt('AttributeError'), node=node)) for s1, ok in ex.split(s, b)]
        n = toStr(n)
        out = []
        for s1, ok in ex.split(s, s.ghost['attrs'][n] != V.absent):
            out.append((s1, s1.ghost['attrs'][n] if ok else Exc(bt('AttributeError'), node=node, attrs={'by': 'absent'})))
        return out

    def write(ex, s, n, w, node):
        if isinstance(n, str) and n in special:
            raise Unsupported(f'assignment to {n}')
        s.ghost = dict(s.ghost, attrs=z3.Store(s.ghost['attrs'], toStr(n), ex.to_V(s, w)))
        return [(s, None)]

    def attr(ex, s, v, nm):
        if nm in ('__getattribute__', '__setattr__'):
            f, _ = cls_of('Lazy').find(nm)
            return [(s, Bound(f, v))]
        if nm == '__dict__':
            return [(s, z3.Const('self.__dict__', ADictS))]
        if nm in special:
            return read(ex, s, nm, None)
        return None
    ex.attrs['LazyObj'] = attr

    def sattr(ex, s, v, nm):
        if nm == '__getattribute__':
            return [(s, Lam(nm, lambda ex, s, a, k, n: read(ex, s, a[0], n)))]
        if nm == '__setattr__':
            return [(s, Lam(nm, lambda ex, s, a, k, n: write(ex, s, a[0], a[1], n)))]
        return None
    ex.attrs['Super'] = sattr
    ex.ext['builtins.super'] = lambda ex, s, a, k, n: [(s, z3.Const('super', SuperS))]

    def adict(ex, s, v, nm):
        def get(ex, s, a, k, n):
            out = []
            for s1, r in read(ex, s, a[0], n):
                out.append((s1, (a[1] if len(a) > 1 else None) if isinstance(r, Exc) else r))
            return out
        return [(s, Lam(nm, get))] if nm == 'get' else None
    ex.attrs['AttrDict'] = adict

    def hasattr_(ex, s, v, nm):
        if isz(v) and v.eq(self_) and nm in special:
            return [(s, special[nm][0])]
        return None
    ex.ext['hasattr'] = hasattr_

    def getattr_(ex, s, v, nm, *d):
        if isz(v) and v.eq(self_) and isinstance(nm, str):
            return [(s1, d[0] if isinstance(r, Exc) and d else r) for s1, r in read(ex, s, nm, None)]
        return None
    ex.ext['getattr'] = getattr_

    def setattr_(ex, s, v, nm, w):
        if isz(v) and v.eq(self_):
            f, _ = cls_of('Lazy').find('__setattr__')
            return ex.call(s, Bound(f, v), [nm, w], {}, None)
        return None
    ex.ext['setattr'] = setattr_
    # -- files, decoding
    OPENED, FPATH = z3.Function('opened.blob', Path, FileS), z3.Function('fpath.blob', FileS, Path)
    BPATH = z3.Function('blob.of.bytes', V, Path)
    p_ = z3.Const('p', Path)
    st.assume(forall([p_], FPATH(OPENED(p_)) == p_, OPENED(p_)), forall([p_], BPATH(BYTES(p_)) == p_, BYTES(p_)))
    where = lambda f: f.arg(0) if f.decl().eq(OPENED) else FPATH(f)

    def open_(ex, s, a, kw, node):
        p = ex.deref(s, a[0])
        ex.oblige(s, 'opens blobs for reading bytes', z3.BoolVal((a[1] if len(a) > 1 else kw.get('mode')) == 'rb'))
        e = fails(s, node, 'read', 'OSError')
        return [(s, OPENED(p)), e]

    def count(s, p):
        s.ghost = dict(s.ghost, reads=z3.Store(s.ghost['reads'], p, s.ghost['reads'][p] + 1))

    def fread(ex, s, v):
        count(s, where(v))
        return [(s, BYTES(where(v)))]
    ex.ext['builtins.open'] = open_
    ex.attrs['Path'] = lambda ex, s, v, nm: [(s, Lam(nm, (lambda ex, s, a, k, n: open_(ex, s, [v] + list(a), k, n)) if nm == 'open' else
                                             (lambda ex, s, a, k, n: [(s1, r if isinstance(r, Exc) else fread(ex, s1, r)[0][1]) for s1, r in open_(ex, s, [v, 'rb'], {}, n)])))] if nm in ('open', 'read_bytes') else None

    def fattr(ex, s, v, nm):
        m = {'__enter__': lambda ex, s, a, k, n: [(s, v)], '__exit__': lambda ex, s, a, k, n: [(s, None)], 'close': lambda ex, s, a, k, n: [(s, None)],
             'read': lambda ex, s, a, k, n: fread(ex, s, v)}.get(nm)
        return None if m is None else [(s, Lam(nm, m))]
    ex.attrs['BlobFile'] = fattr

    def entry_of(s, p, legacy, what):
        """Reading with this decoder is right for this blob."""
        e = m0.at(name)
        ex.oblige(s, f'{what}: reads the blob of the field', And(m0.has[name], e.items[2] == p))
        ex.oblige(s, f'{what}: decodes it according to its kind', e.items[3] == legacy)

    def unpack(ex, s, a, kw, node, bytes_=False):
        p = BPATH(a[0]) if bytes_ else where(a[0])
        p = a[0].arg(0) if bytes_ and a[0].decl().eq(BYTES) else p
        hook = kw.get('object_hook')
        ex.oblige(s, 'decodes arrays while unpacking', z3.BoolVal(isinstance(hook, FnVal) and hook.qual == f'{MT}:decode'))
        ex.oblige(s, 'accepts keys of every type while unpacking', z3.BoolVal(kw.get('strict_map_key', True) is False))
        entry_of(s, p, False, 'unpack')
        if not bytes_:
            count(s, p)
        e = fails(s, node, 'read')
        return [(s, DATA(p)), e]
    ex.ext['msgpack.unpack'] = ex.ext['msgpack.load'] = unpack
    ex.ext['msgpack.unpackb'] = ex.ext['msgpack.loads'] = lambda ex, s, a, kw, n: unpack(ex, s, a, kw, n, True)

    def unpickle(ex, s, a, kw, node, bytes_=False):
        p = (a[0].arg(0) if a[0].decl().eq(BYTES) else BPATH(a[0])) if bytes_ else where(a[0])
        ex.oblige(s, 'unpickles only when the environment allows it', opt)
        entry_of(s, p, True, 'unpickle')
        if not bytes_:
            count(s, p)
        e = fails(s, node, 'read')
        return [(s, DATA(p)), e]
    ex.ext['pickle.load'] = unpickle
    ex.ext['pickle.loads'] = lambda ex, s, a, kw, n: unpickle(ex, s, a, kw, n, True)
    envv = z3.Const('os.environ', EnvS)
    flag = z3.Const('flag', Str)
    st.assume(Implies(Not(opt), flag == lit('')))
    ex.ext['const:os.environ'] = envv
    ex.ext['contains'] = lambda ex, s, x, c: [(s, opt)] if isz(c) and c.eq(envv) and x == 'UNSAFE_DESERIALIZE_PICKLE' else None
    getenv = lambda ex, s, a, k, n: [(s1, flag if ok else (a[1] if len(a) > 1 else None)) for s1, ok in ex.split(s, opt)] if a[0] == 'UNSAFE_DESERIALIZE_PICKLE' else ex.raise_(s, 'KeyError', n)
    ex.attrs['Environ'] = lambda ex, s, v, nm: [(s, Lam(nm, getenv))] if nm == 'get' else None
    ex.ext['os.getenv'] = getenv
    # -- the user's deserializer

    def cattr(ex, s, v, nm):
        def call(ex, s, a, kw, node):
            e = dict(zip(['state_dict', 'config', 'state', 'ctx'], a), **kw)
            en = m0.at(name)
            x = ex.deref(s, e['ctx'])
            h = s.heap[x.a] if isinstance(x, Ref) else None
            ex.oblige(s, 'deserializes with the class of the field', And(m0.has[name], en.items[0] == v))
            ex.oblige(s, 'deserializes the data that was read', same(e['state_dict'], DATA(en.items[2])))
            ex.oblige(s, 'supplies the configuration', same(e['config'], en.items[1]))
            ex.oblige(s, 'supplies the state itself', same(e['state'], self_))
            ex.oblige(s, 'supplies the context', And(Implies(hasctx, z3.BoolVal(isinstance(h, HMap) and h.m is cm)), Or(hasctx, z3.BoolVal(isinstance(h, HDict) and not h.items))))
            # it may load other fields of the state
            cur = s.heap[unl.a].m
            new = ENTRY().build([fresh('unloaded', y) for y in ENTRY().sorts()])
            k = z3.Const('k', Str)
            at = fresh('attrs', u.M)
            s.assume(*new.facts())
            same_e = And(*[a_ == b_ for a_, b_ in zip(ex.flatten_val(new.at(k), new.shape), ex.flatten_val(cur.at(k), cur.shape))])
            s.assume(forall([k], Implies(new.has[k], And(cur.has[k], same_e)), new.has[k]))
            s.assume(forall([k], Implies(Or(new.has[k], k == name, Not(cur.has[k])), at[k] == s.ghost['attrs'][k]), at[k]))
            s.assume(new.has[name] == cur.has[name])
            s.assume(VALUE(v, DATA(en.items[2])) != V.absent)
            s.heap[unl.a] = HMap(new)
            s.ghost = dict(s.ghost, attrs=at, snap=(at, new))
            e = fails(s, node, 'deserialize')
            return [(s, VALUE(v, DATA(en.items[2]))), e]
        return [(s, Lam(nm, call))] if nm == 'deserialize' else None
    ex.attrs['ClsT'] = cattr
    return ex, st, g


def get(t):
    ex, st, g = lazy_object(t)
    m0, name, has, unl = g['m0'], g['name'], g['has'], g['unl']
    a0 = st.ghost['attrs']
    pending = And(has, m0.has[name])
    e0 = m0.at(name)
    p0 = e0.items[2]
    k = fresh('k', Str)
    q = fresh('q', Path)

    def base(s):
        return s.ghost['snap'] or (a0, m0)

    def ensures(s, r):
        at, m = base(s)
        a, mm, rd = s.ghost['attrs'], s.heap[unl.a].m, s.ghost['reads']
        v = VALUE(e0.items[0], DATA(p0))
        return [('returns the value that was set or loaded before', Implies(Not(pending), And(same(r, a0[name]), a0[name] != V.absent))),
                ('returns the deserialized value', Implies(pending, same(r, v))),
                ('keeps the value', Implies(pending, And(a[name] == v, Not(mm.has[name])))),
                ('changes no other field', And(Implies(k != name, And(a[k] == at[k], mm.has[k] == m.has[k])), Implies(Not(pending), And(a[name] == a0[name], mm.has[name] == m0.has[name])))),
                ('reads one blob, its own, once', rd[q] == If(And(pending, q == p0), z3.IntVal(1), z3.IntVal(0)))]

    def raises(s, x):
        at, m = base(s)
        by = x.attrs.get('by')
        mm = s.heap[unl.a].m
        keep = [('leaves everything as it was when it fails', And(s.ghost['attrs'][k] == at[k], mm.has[k] == m.has[k], Implies(mm.has[k], And(*[x == y for x, y in zip(ex.flatten_val(mm.at(k), mm.shape), ex.flatten_val(m.at(k), m.shape))])))),
                ('leaves the field retryable', Implies(pending, mm.has[name]))]
        if by in ('read', 'deserialize'):
            return keep + [('reads only pending fields', pending)]
        if by == 'absent':
            return keep + [('an absent attribute is neither set nor pending', And(Not(pending), a0[name] == V.absent))]
        if x.cls is bt('RuntimeError'):
            return keep + [('refuses only legacy pickles', And(pending, e0.items[3])), ('refuses only without the environment variable', Or(Not(g['opt']), z3.Const('flag', Str) == lit('')))]
        return None
    t.check_fn(ex, st, f'{L}:Lazy.__getattribute__', [g['self_'], name], ensures, raises)


def set(t):
    ex, st, g = lazy_object(t)
    m0, name, unl = g['m0'], g['name'], g['unl']
    a0 = st.ghost['attrs']
    w = fresh('value', V)
    st.assume(w != V.absent)
    k = fresh('k', Str)

    def ensures(s, r):
        mm = s.heap[unl.a].m
        return [('stores the value', s.ghost['attrs'][name] == w), ('the assigned value replaces the one not loaded yet', Implies(g['has'], Not(mm.has[name]))),
                ('changes no other field', Implies(k != name, And(s.ghost['attrs'][k] == a0[k], mm.has[k] == m0.has[k], Implies(mm.has[k], And(*[x == y for x, y in zip(ex.flatten_val(mm.at(k), mm.shape), ex.flatten_val(m0.at(k), m0.shape))]))))),
                ('reads nothing', z3.BoolVal(s.ghost['reads'].eq(st.ghost['reads'])))]
    t.check_fn(ex, st, f'{L}:Lazy.__setattr__', [g['self_'], name, w], ensures, None)


MSG, PIC, OLDB = (lit(x) for x in ('<blob:msgpack>', '<blob:pickle>', '<BLOB>'))


def blobname(ex, st, path):
    """The file of a field's blob: what the serializer calls it."""
    rep = lambda s, a, b: ex.call(st, Bound(Ext('method.replace'), s), [a, b], {}, None)[0][1]
    return u.cat(lit('state.'), u.cat(rep(rep(path, '[', '_'), ']', ''), lit('.msgpack')))


from pydv.front import Ext


def classes(ex, cls, isc, isser):
    ser = cls_of('Serializable')
    ex.ext['inspect.isclass'] = lambda ex, s, a, k, n: [(s, isc if isz(a[0]) and a[0].eq(cls) else FALSE)]

    def sub(ex, s, a, b):
        if isz(a) and a.eq(cls) and b is ser:
            out = []
            for s1, ok in ex.split(s, isc):
                out.append((s1, isser if ok else Exc(bt('TypeError'))))
            return out
        return None
    ex.ext['issubclass'] = sub

    def isinst(ex, s, a, b):
        if isz(a) and a.eq(cls) and b is bt('type'):
            return [(s, isc)]
        return None
    ex.ext['isinstance'] = isinst


def deserializer(t):
    """LazyDeserializer.deserialize: notes where the blob is; reads nothing."""
    ex = t.engine()
    st = St()
    cls, isc, isser = z3.Const('cls', ClsS), fresh('isclass', B), fresh('isser', B)
    classes(ex, cls, isc, isser)
    wiring.paths(ex)
    m0 = ENTRY().build([fresh('lazyfields', x) for x in ENTRY().sorts()])
    st.assume(*m0.facts())
    lf = ex.alloc(st, HMap(m0))
    cfg, dir_ = Maybe(fresh('nocfg', B), fresh('config', Obj)), fresh('dir', Path)
    self_ = ex.alloc(st, HObj(cls_of('LazyDeserializer'), dict(config=cfg, path=dir_, lazy_fields=lf)))
    value, path = fresh('value', V), fresh('path', Str)
    mine = And(isc, isser)
    k, x_ = fresh('k', Str), z3.Const('x', Str)
    ex.ext['builtins.open'] = lambda ex, s, a, kw, n: (ex.oblige(s, 'reads nothing while loading', FALSE), [(s, fresh('f', FileS))])[1]
    name = blobname(ex, st, path)

    def ensures(s, r):
        r = ex.deref(s, r)
        h = s.heap[self_.a].attrs['lazy_fields']
        m = s.heap[h.a].m
        e = m.at(path)
        ok, fin = tobool_(r.items[1]), tobool_(r.items[2])
        return [('handles serializable fields', And(ok == mine, Implies(mine, fin))),
                ('notes the field', Implies(mine, m.has[path])),
                ('notes its class', Implies(mine, e.items[0] == cls)), ('notes the configuration', Implies(mine, same(e.items[1], cfg))),
                ('finds the blob where it was written', Implies(And(mine, value == V.str(MSG)), e.items[2] == JOIN(dir_, name))),
                ('looks beside the file', Implies(mine, z3.Exists([x_], e.items[2] == JOIN(dir_, x_)))),
                ('unpickles only legacy blobs', Implies(mine, e.items[3] == (value != V.str(MSG)))),
                ('notes no other field', Implies(Or(Not(mine), k != path), And(m.has[k] == m0.has[k], Implies(m.has[k], And(*[x == y for x, y in zip(ex.flatten_val(m.at(k), m.shape), ex.flatten_val(m0.at(k), m0.shape))]))))),
                ('leaves no value yet', Implies(mine, same(r.items[0], None)))]

    def raises(s, x):
        if x.cls.name in ('AssertionError', 'ValueError', 'TypeError'):
            return [('refuses only what is not a blob', And(mine, value != V.str(MSG), value != V.str(PIC), value != V.str(OLDB)))]
        return None
    t.check_fn(ex, st, f'{L}:LazyDeserializer.deserialize', [self_, cls, value, path], ensures, raises)


def typed_load(t):
    wiring.typed_load(t, {'lazy'})


def state(t):
    from contracts import c13
    c13.state(t, ('lazy',))


def set_ctx(t):
    """What the application adds to the context reaches the manager's and the state's context."""
    H = 'hyperstate.hyperstate'
    ex = t.engine()
    st = St()
    shape = SMap(Str, SLeaf(V))
    m0 = shape.build([fresh('ctx', x) for x in shape.sorts()])
    st.assume(*m0.facts())
    ctx = ex.alloc(st, HMap(m0))
    self_ = ex.alloc(st, HObj(cls_of('StateManager'), dict(_deserialize_ctx=ctx)))
    key, w, k = fresh('key', Str), fresh('value', V), fresh('k', Str)

    def ensures(s, r):
        h = s.heap[self_.a].attrs['_deserialize_ctx']
        m = s.heap[h.a].m
        return [('keeps the value', And(m.has[key], m.at(key) == w)), ('keeps the other values', Implies(k != key, And(m.has[k] == m0.has[k], Implies(m.has[k], m.at(k) == m0.at(k)))))]
    t.check_fn(ex, st, f'{H}:StateManager.set_deserialize_ctx', [self_, key, w], ensures, None)


TASKS = ['get', 'set', 'deserializer', 'typed_load', 'state', 'set_ctx']

TECHNIQUE = ('contract-based deductive verification: Lazy.__getattribute__ and __setattr__, LazyDeserializer.deserialize, _typed_load and the state '
             'property are executed symbolically; one access from an arbitrary state of the object is proved, so every history of accesses follows '
             'by induction; z3 and cvc5')
NOTE = ('Assumed: open, msgpack.unpack, pickle.load and the user deserializer (which may load other fields but not its own) by contract; a field '
        'read raises or returns; no field is named _unloaded_lazy_fields or _deserialize_ctx; legacy <BLOB>/<blob:pickle> file names are taken as they are')

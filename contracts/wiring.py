"""How loading and saving put the (de)serializers together: _typed_load, _typed_dump and their callers."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from z3 import And, Or, Not, Implies, If

H = 'hyperstate.hyperstate'
I, B = z3.IntSort(), z3.BoolSort()
Path, Obj, ClsS, Lst = (z3.DeclareSort(n) for n in ('Path', 'Obj', 'ClsT', 'Opq'))
JOIN = z3.Function('join', Path, Str, Path)
JOINI = z3.Function('join.name', Path, Str)
ISDIR = z3.Function('is_dir', Path, B)
PARENT, ABS = z3.Function('parent', Path, Path), z3.Function('absolute', Path, Path)
LOADED = z3.Function('loaded', ClsS, Obj)
FALSE = z3.BoolVal(False)


def cls_of(name):
    for m in repo().modules.values():
        if name in m.defs and m.defs[name][0] == 'class':
            return repo().lookup(m, name)
    raise Unsupported(f'class {name} not found')


def isa(st, x, name):
    return isinstance(x, Ref) and isinstance(st.heap[x.a], HObj) and isinstance(st.heap[x.a].cls, ClassVal) and cls_of(name) in st.heap[x.a].cls.mro()


def paths(ex):
    def attr(ex, st, v, name):
        if name == 'parent':
            return [(st, PARENT(v))]
        if name == 'absolute':
            return [(st, Lam('absolute', lambda ex, st, a, k, n: [(st, ABS(v))]))]
        if name == 'is_dir':
            return [(st, Lam('is_dir', lambda ex, st, a, k, n: [(st, ISDIR(v))]))]
        return None
    ex.attrs['Path'] = attr
    ex.ext['binop:Div'] = lambda ex, st, a, b: [(st, JOIN(a, toStr(b)))] if isz(a) and a.sort() == Path else None


def items(ex, st, x):
    x = ex.deref(st, x)
    if isinstance(x, Ref) and isinstance(st.heap[x.a], HList):
        return list(st.heap[x.a].items)
    if isinstance(x, Tup):
        return list(x.items)
    raise Unsupported('a list of steps that is not built element by element')


def same(a, b):
    """Equality of opaque values (z3 terms, None, optionals)."""
    if isinstance(a, Maybe) and isinstance(b, Maybe):
        return And(a.isnone == b.isnone, Or(a.isnone, same(a.val, b.val)))
    if isinstance(a, Maybe):
        return a.isnone if b is None else And(Not(a.isnone), same(a.val, b))
    if isinstance(b, Maybe):
        return same(b, a)
    if isz(a) or isz(b):
        for x, y in ((a, b), (b, a)):
            if x is None:
                return y == V.none if y.sort() == V else FALSE
        try:
            a, b = (lit(x) if isinstance(x, str) else toz(x) for x in (a, b))
            return a == b
        except (z3.Z3Exception, Unsupported, TypeError):
            return FALSE
    return z3.BoolVal(same_const(a, b))


def bind1(ex, st, qual, args, kwargs, node):
    fn = repo().get(qual)
    return ex.bind_args(st, fn, args, kwargs, node)


def typed_load(t, aspects):
    ex = t.engine()
    st = St()
    paths(ex)
    clz = z3.Const('clz', ClsS)
    nofile, nodata, noov = (fresh(n, B) for n in ('nofile', 'nodata', 'noov'))
    file, data = Maybe(nofile, fresh('file', Path)), Maybe(nodata, fresh('data', Str))
    ov, config = Maybe(noov, fresh('overrides', Lst)), Maybe(fresh('noconfig', B), fresh('config', Obj))
    allow, ignore = fresh('allow', B), fresh('ignore', B)
    shape = SMap(Str, SLeaf(V))
    seen = {}

    def loader(which):
        def f(ex, st, fn, args, kwargs, node):
            out = []
            for s, e in ex.bind_args(st, fn, args, kwargs, node):
                if isinstance(e, Exc):
                    out.append((s, e))
                    continue
                ds = items(ex, s, e['deserializers'])
                pos = lambda nm: [j for j, d in enumerate(ds) if isa(s, d, nm)]
                at = lambda nm: s.heap[ds[pos(nm)[0]].a].attrs
                ver, ovs, sch, lz = pos('VersionedDeserializer'), pos('OverridesDeserializer'), pos('ScheduleDeserializer'), pos('LazyDeserializer')
                P = lambda a, n, g: ex.oblige(s, n, g) if a in aspects else None
                P('version', 'upgrades documents while loading', z3.BoolVal(len(ver) == 1))
                if ver:
                    P('version', 'accepts a missing version exactly when asked to', same(at('VersionedDeserializer')['allow_missing_version'], allow))
                P('overrides', 'applies overrides exactly when there are some', z3.BoolVal(len(ovs) <= 1) if noov is None else (noov if not ovs else Not(noov)))
                if ovs:
                    P('overrides', 'applies the overrides given', same(at('OverridesDeserializer')['overrides'], ov))
                    P('overrides', 'has not applied them before', tobool_(at('OverridesDeserializer')['applied_overrides']) == FALSE)
                    P('overrides', 'overrides the upgraded document', z3.BoolVal(bool(ver) and ver[0] < ovs[0]))
                P('schedules', 'reads schedules while loading', z3.BoolVal(len(sch) == 1))
                if sch:
                    sch_ = at('ScheduleDeserializer')['schedules']
                    s.ghost['sch'] = (sch_,)
                    h = s.heap[sch_.a]
                    P('schedules', 'starts from no schedules', z3.BoolVal(isinstance(h, HDict) and not h.items))
                P('lazy', 'knows lazy fields exactly when loading from a file', nofile if not lz else Not(nofile))
                if lz:
                    a = at('LazyDeserializer')
                    P('lazy', 'looks for blobs beside the file', same(a['path'], PARENT(ABS(file.val))))
                    P('lazy', 'gives lazy fields the configuration', same(a['config'], config))
                    m = shape.build([fresh('lazyfields', x) for x in shape.sorts()])
                    for f_ in m.facts():
                        s.assume(f_)
                    lf = ex.alloc(s, HMap(m))
                    h = s.heap[ds[lz[0]].a]
                    s.heap[ds[lz[0]].a] = HObj(h.cls, dict(h.attrs, lazy_fields=lf))
                    seen['lazy'] = (lf.a, m)
                P('version', 'loads the class asked for', same(e['clz'], clz))
                P('version', 'passes on whether extra fields are ignored', same(e['ignore_extra_fields'], ignore))
                if which == 'load':
                    P('version', 'reads the file given', And(Not(nofile), same(e[list(e)[1]], file)))
                else:
                    # an absent or empty text stands for the empty document
                    P('version', 'reads the text given', And(nofile, If(Or(nodata, data.val == lit('')), Or(same(e[list(e)[1]], lit('{}')), same(e[list(e)[1]], data)), same(e[list(e)[1]], data))))
                s2 = s.fork()
                out += [(s, LOADED(clz)), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
            return out
        return f
    ex.contracts['hyperstate.serde:load'] = loader('load')
    ex.contracts['hyperstate.serde:loads'] = loader('loads')

    def setattr_(ex, st, v, name, w):
        st.ghost = dict(st.ghost)
        st.ghost[('set', name)] = w
        return [(st, None)]
    ex.ext['setattr:Obj'] = setattr_

    def ensures(s, r):
        r = ex.deref(s, r)
        if not (isinstance(r, Tup) and len(r.items) == 2):
            return [('returns the value and the schedules', FALSE)]
        out = []
        if 'version' in aspects:
            out.append(('returns what was loaded', same(r.items[0], LOADED(clz))))
        if 'schedules' in aspects:
            out.append(('returns the schedules that were read', z3.BoolVal(same_const(r.items[1], s.ghost.get('sch', (None,))[0]))))
        if 'lazy' in aspects:
            w = s.ghost.get(('set', '_unloaded_lazy_fields'))
            if w is None:
                lz = [h.m for a, h in s.heap.items() if isinstance(h, HMap)]
                out.append(('keeps the fields that are not loaded yet', And([m.n == 0 for m in lz] or [z3.BoolVal(True)])))
            else:
                out.append(('keeps the fields that are not loaded yet', z3.BoolVal(isinstance(w, Ref) and isinstance(s.heap[w.a], HMap))))
        return out

    def raises(s, x):
        if x.attrs.get('by') == 'load':
            return []
        if x.cls.name in ('AssertionError', 'ValueError', 'TypeError'):
            return [('refuses only a file and a text together', And(Not(nofile), Not(nodata)))]
        return None
    kw = dict(file=file, data=data, overrides=ov, config=config, allow_missing_version=allow, ignore_extra_fields=ignore)
    for q in ('hyperstate.serde:load', 'hyperstate.serde:loads'):
        t.assumed.add(q)
    t.check_fn(ex, st, f'{H}:_typed_load', [clz], ensures, raises, kwargs=kw)


def tobool_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def typed_dump(t, aspects):
    ex = t.engine(axioms=[forall([z3.Const('p', Path), z3.Const('n', Str)], JOINI(JOIN(z3.Const('p', Path), z3.Const('n', Str))) == z3.Const('n', Str),
                                 JOIN(z3.Const('p', Path), z3.Const('n', Str)))])
    st = St()
    paths(ex)
    obj = z3.Const('obj', Obj)
    nofile, nosch = fresh('nofile', B), fresh('nosch', B)
    file, sch = Maybe(nofile, fresh('file', Path)), Maybe(nosch, fresh('schedules', Lst))
    elide = fresh('elide', B)
    shape = SMap(Str, SLeaf(V))
    TEXT = fresh('text', Str)
    FS = z3.ArraySort(Path, V)
    blobs = {}
    st.ghost['files'] = fresh('files', FS)

    def dumper(which):
        def f(ex, st, fn, args, kwargs, node):
            out = []
            for s, e in ex.bind_args(st, fn, args, kwargs, node):
                if isinstance(e, Exc):
                    out.append((s, e))
                    continue
                ss = items(ex, s, e['serializers'])
                pos = lambda nm: [j for j, d in enumerate(ss) if isa(s, d, nm)]
                at = lambda nm: s.heap[ss[pos(nm)[0]].a].attrs
                P = lambda a, n, g: ex.oblige(s, n, g) if a in aspects else None
                P('version', 'records versions while saving', z3.BoolVal(len(pos('VersionedSerializer')) == 1))
                P('version', 'saves the object given', same(e[list(e)[0]], obj))
                P('elide', 'leaves out defaults exactly when asked to', elide if pos('ElideDefaults') else Not(elide))
                P('schedules', 'saves schedules exactly when given some', Not(nosch) if pos('ScheduleSerializer') else nosch)
                if pos('ScheduleSerializer'):
                    P('schedules', 'saves the schedules given', same(at('ScheduleSerializer')['schedules'], sch))
                P('lazy', 'saves lazy fields as blobs', z3.BoolVal(len(pos('LazySerializer')) == 1))
                if which == 'dump':
                    P('version', 'writes the file given', And(Not(nofile), same(e[list(e)[1]], file)))
                else:
                    P('version', 'writes no file', nofile)
                if pos('LazySerializer'):
                    m = shape.build([fresh('blobs', x) for x in shape.sorts()])
                    for f_ in m.facts():
                        s.assume(f_)
                    lf = ex.alloc(s, HMap(m))
                    a = ss[pos('LazySerializer')[0]].a
                    s.heap[a] = HObj(s.heap[a].cls, dict(s.heap[a].attrs, blobs=lf))
                    s.ghost['blobmap'] = (m,)
                    blobs['m'] = m
                s2 = s.fork()
                out += [(s, TEXT), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'dump'}))]
            return out
        return f
    ex.contracts['hyperstate.serde:dump'] = dumper('dump')
    ex.contracts['hyperstate.serde:dumps'] = dumper('dumps')
    FileS = z3.DeclareSort('File')
    OPENED, FPATH = z3.Function('opened', Path, FileS), z3.Function('fpath', FileS, Path)
    p_ = z3.Const('p', Path)
    st.assume(forall([p_], FPATH(OPENED(p_)) == p_, OPENED(p_)))

    def open_(ex, st, args, kw, node):
        if (args[1] if len(args) > 1 else kw.get('mode', 'r')) != 'wb':
            ex.oblige(st, 'opens blobs for writing', FALSE)
        return [(st, OPENED(args[0]))]

    def fattr(ex, st, v, name):
        def write(ex, st, a, k, n):
            st.ghost = dict(st.ghost, files=z3.Store(st.ghost['files'], FPATH(v), ex.to_V(st, a[0])))
            return [(st, None)]
        m = {'write': write, '__enter__': lambda ex, st, a, k, n: [(st, v)], '__exit__': lambda ex, st, a, k, n: [(st, None)],
             'close': lambda ex, st, a, k, n: [(st, None)]}.get(name)
        return None if m is None else [(st, Lam(name, m))]
    ex.attrs['File'] = fattr
    ex.ext['builtins.open'] = open_

    def cands(loop):
        if not loop.isfor or 'm' not in blobs:
            return
        m = blobs['m']
        k = z3.Const('k', Str)
        yield 'blobs written so far', lambda v: FA([k], Implies(And(m.has[k], m.idx(k) < v.i), v.st.ghost['files'][JOIN(PARENT(file.val), k)] == m.at(k)), m.has[k])
    ex.loops['*'] = cands

    def ensures(s, r):
        out = [('returns the text', same(r, TEXT))] if 'version' in aspects else []
        if 'lazy' in aspects and 'blobmap' in s.ghost:
            m = s.ghost['blobmap'][0]
            k = fresh('k', Str)
            out.append(('writes every blob beside the file', Implies(And(Not(nofile), m.has[k]), s.ghost['files'][JOIN(PARENT(file.val), k)] == m.at(k))))
        return out

    def raises(s, x):
        return [] if x.attrs.get('by') == 'dump' else None
    for q in ('hyperstate.serde:dump', 'hyperstate.serde:dumps'):
        t.assumed.add(q)
    t.trust('open, write and path joining do what their names say; file-system errors are not modelled here')
    t.check_fn(ex, st, f'{H}:_typed_dump', [obj], ensures, raises, kwargs=dict(file=file, schedules=sch, elide_defaults=elide))


FA = forall


def pick(a, b):
    """a if it is not None, else b (optionals of paths)."""
    return Maybe(And(a.isnone, b.isnone), If(a.isnone, b.val, a.val))


def manager(ex, st):
    """An arbitrary StateManager, before the configuration is loaded."""
    o = {n: Maybe(fresh('no' + n, B), fresh(n, srt)) for n, srt in (('_last_checkpoint', Path), ('init_path', Path), ('overrides', Lst))}
    o.update(config_cls=z3.Const('clz', ClsS), state_cls=z3.Const('scls', ClsS), ignore_extra_fields=fresh('ignore', B))
    return o, ex.alloc(st, HObj(cls_of('StateManager'), dict(o)))


def load_config(t, aspects):
    ex = t.engine()
    st = St()
    paths(ex)
    o, self_ = manager(ex, st)
    clz = o['config_cls']
    isv = fresh('versioned', B)
    vcls = cls_of('Versioned')
    ex.ext['issubclass'] = lambda ex, st, a, b: [(st, isv)] if isz(a) and a.eq(clz) and b is vcls else None
    src = pick(o['_last_checkpoint'], o['init_path'])
    SCH = fresh('schedules', Lst)

    def tl(ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            P = lambda a, n, g: ex.oblige(s, f'_load_config: {n}', g) if a in aspects else None
            f = e['file']
            P('version', 'only a missing file or an unversioned class needs no version', tobool_(e['allow_missing_version']) == Or(src.isnone, Not(isv)))
            P('resume', 'reads the resumed checkpoint or else the initial path', same(f, Maybe(src.isnone, If(ISDIR(src.val), JOIN(src.val, lit('config.ron')), src.val))))
            P('resume', 'loads the configuration class', same(e['clz'], clz))
            ov = ex.deref(s, e['overrides'])
            empty = isinstance(ov, Ref) and isinstance(s.heap[ov.a], HList) and not s.heap[ov.a].items
            P('overrides', 'applies the overrides of the manager, whatever file is read', o['overrides'].isnone if ov is None or empty else same(ov, o['overrides']))
            P('resume', 'passes on whether extra fields are ignored', same(e['ignore_extra_fields'], o['ignore_extra_fields']))
            out.append((s, Tup([LOADED(clz), SCH])))
        return out
    ex.contracts[f'{H}:_typed_load'] = tl
    t.assumed.add(f'{H}:_typed_load')

    def ensures(s, r):
        r = ex.deref(s, r)
        return [('_load_config: returns what was loaded', And(same(r.items[0], LOADED(clz)), same(r.items[1], SCH)))]
    t.check_fn(ex, st, f'{H}:StateManager._load_config', [self_], ensures, None)


def callers(t):
    """load and loads: which documents may lack a version."""
    for name in ('load', 'loads'):
        ex = t.engine()
        st = St()
        paths(ex)
        clz = z3.Const('clz', ClsS)
        isv = fresh('versioned', B)
        vcls = cls_of('Versioned')
        ex.ext['issubclass'] = lambda ex, st, a, b: [(st, isv)] if isz(a) and a.eq(clz) and b is vcls else None
        calls = []

        def tl(ex, st, fn, args, kwargs, node):
            out = []
            for s, e in ex.bind_args(st, fn, args, kwargs, node):
                if isinstance(e, Exc):
                    out.append((s, e))
                    continue
                P = lambda n, g: ex.oblige(s, f'{name}: {n}', g)
                nof = e['file'].isnone if isinstance(e['file'], Maybe) else z3.BoolVal(e['file'] is None)
                P('accepts a document without a version only when there is no file',
                  Implies(tobool_(e['allow_missing_version']), nof if name != 'loads' else FALSE))
                if name != 'loads':
                    P('loading without a file needs no version', Implies(And(nof, isv), tobool_(e['allow_missing_version'])))
                P('loads the class asked for', same(e['clz'], clz))
                out.append((s, Tup([LOADED(clz), fresh('schedules', Lst)])))
            return out
        ex.contracts[f'{H}:_typed_load'] = tl
        t.assumed.add(f'{H}:_typed_load')
        ov = Maybe(fresh('noov', B), fresh('overrides', Lst))
        fnone = fresh('nofile', B)
        if name == 'loads':
            args, kw = [clz, fresh('text', Str)], dict(overrides=ov)
        elif name == 'load':
            args, kw = [clz, Maybe(fnone, fresh('file', Path))], dict(overrides=ov)
            ex.ext['isinstance'] = lambda ex, st, a, b: [(st, False)] if b is bt('str') else None
        t.check_fn(ex, st, f'{H}:{name}', args, lambda s, r: [('returns the value', same(r, LOADED(clz)))], None, kwargs=kw)

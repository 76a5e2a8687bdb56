"""C16: the upgrade commands rewrite a file only to an equivalent, current one."""
import ast
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from contracts.wiring import Path, Obj, ClsS, Lst, same, cls_of, tobool_
from contracts.fs import PATHOF, STRP
from z3 import And, Or, Not, Implies, If

I, B = z3.IntSort(), z3.BoolSort()
K_, H, T, S = 'hyperstate.schema.schema_checker', 'hyperstate.hyperstate', 'hyperstate.schema.types', 'hyperstate.serde'
FILES = z3.ArraySort(Path, Str)
CURRENT = z3.Function('current.schema', ClsS, Obj)
DUMPS = z3.Function('dumps', Obj, Str)
SCHEMA = z3.Function('schema.in', Str, Obj)
ISSTRUCT = z3.Function('is.struct', Obj, B)
FALSE = z3.BoolVal(False)


def env(t):
    """Files hold text; opening one for writing empties it."""
    ex = t.engine()
    st = St()
    f0 = fresh('files', FILES)
    st.ghost['files'] = f0
    p_ = z3.Const('p', Path)
    st.assume(forall([p_], PATHOF(STRP(p_)) == p_, STRP(p_)))
    FileS = z3.DeclareSort('File')
    OPENED, FPATH = z3.Function('opened', Path, FileS), z3.Function('fpath', FileS, Path)
    st.assume(forall([p_], FPATH(OPENED(p_)) == p_, OPENED(p_)))

    def topath(s, x):
        x = ex.deref(s, x)
        x = ex.unwrap(s, x) if isinstance(x, Maybe) else x
        if isinstance(x, str):
            return PATHOF(lit(x))
        return x if x.sort() == Path else x.arg(0) if x.decl().eq(STRP) else PATHOF(x)
    ex.topath = topath

    def setf(s, p, w):
        s.ghost = dict(s.ghost, files=z3.Store(s.ghost['files'], p, w))

    def ioerr(s, node):
        return (s.fork(), Exc(bt('OSError'), node=node, attrs={'by': 'fs'}))

    def open_(ex, s, args, kw, node):
        p = topath(s, args[0])
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if mode not in ('r', 'w', 'rt', 'wt'):
            raise Unsupported(f'open mode {mode!r}')
        e = ioerr(s, node)
        if 'w' in mode:
            setf(s, p, lit(''))
        return [(s, OPENED(p)), e]

    def add(s, p, w, node):
        """Writing the text: nothing is lost on the way (a failing write is not modelled)."""
        old = s.ghost['files'][p]
        setf(s, p, z3.If(old == lit(''), w, u.cat(old, w)))
        return [(s, None)]

    def fattr(ex, s, v, name):
        P = v.arg(0) if v.decl().eq(OPENED) else FPATH(v)
        m = {'write': lambda ex, s, a, k, n: add(s, P, toStr(a[0]), n),
             'read': lambda ex, s, a, k, n: [(s, s.ghost['files'][P])],
             '__enter__': lambda ex, s, a, k, n: [(s, v)], '__exit__': lambda ex, s, a, k, n: [(s, None)],
             'close': lambda ex, s, a, k, n: [(s, None)]}.get(name)
        return None if m is None else [(s, Lam(name, m))]
    ex.attrs['File'] = fattr
    ex.ext['builtins.open'] = open_
    ex.ext['pathlib.Path'] = lambda ex, s, a, k, n: [(s, topath(s, a[0]))]

    def write_text(ex, s, v, a, n):
        e = ioerr(s, n)
        setf(s, v, toStr(a[0]))
        return [(s, None), e]

    def pattr(ex, s, v, name):
        m = {'open': lambda ex, s, a, k, n: open_(ex, s, [v] + list(a), k, n),
             'read_text': lambda ex, s, a, k, n: [(s, s.ghost['files'][v]), ioerr(s, n)],
             'write_text': lambda ex, s, a, k, n: write_text(ex, s, v, a, n)}.get(name)
        return None if m is None else [(s, Lam(name, m))]
    ex.attrs['Path'] = pattr

    def isinst(ex, s, a, b):
        if isz(a) and a.sort() == Obj and isinstance(b, ClassVal) and b.name == 'Struct':
            return [(s, ISSTRUCT(a))]
        if isz(a) and a.sort() == Path and b is bt('str'):
            return [(s, False)]
        return None
    ex.ext['isinstance'] = isinst
    for nm in ('click.secho', 'click.echo', 'builtins.print'):
        ex.ext[nm] = lambda ex, s, a, k, n: [(s, None)]
    ex.decorators = lambda d: ast.unparse(d).startswith(('click.', 'cli.'))
    ex.ext['click.style'] = lambda ex, s, a, k, n: [(s, toStr(a[0]))]
    t.trust('the click decorators pass the arguments of the command line on')
    t.trust('open for writing empties the file, write stores the text given; a disk that fails in the middle of a write is not modelled')
    return ex, st, f0


def fails(s, node, by):
    return (s.fork(), Exc(bt('Exception'), node=node, attrs={'by': by}))


def bound(ex, s, fn, args, kwargs, node, f):
    out = []
    for s, e in ex.bind_args(s, fn, args, kwargs, node):
        out += [(s, e)] if isinstance(e, Exc) else f(s, e, list(e))
    return out


def dumping(t, ex):
    """materialize_type and dumps, by contract: pure."""
    def mat(ex, s, fn, args, kwargs, node):
        return bound(ex, s, fn, args, kwargs, node, lambda s, e, k: [(s, CURRENT(e[k[0]])), fails(s, node, 'dump')])

    def dumps(ex, s, fn, args, kwargs, node):
        def f(s, e, k):
            ex.oblige(s, 'dumps the schema without serializers', z3.BoolVal(e['serializers'] is None or isinstance(e['serializers'], Ref) and not s.heap[e['serializers'].a].items))
            return [(s, DUMPS(e[k[0]])), fails(s, node, 'dump')]
        return bound(ex, s, fn, args, kwargs, node, f)
    ex.contracts[f'{T}:materialize_type'] = mat
    ex.contracts[f'{S}:dumps'] = dumps
    t.assumed |= {f'{T}:materialize_type', f'{S}:dumps'}


def others(v, f0, P):
    p = z3.Const('p', Path)
    return ('touches no other file', forall([p], Implies(p != P, v[p] == f0[p]), v[p]))


BY = ('dump', 'fs', 'load', 'check', 'assert')


def dump_schema(t):
    ex, st, f0 = env(t)
    dumping(t, ex)
    P, clz = fresh('file', Path), z3.Const('clz', ClsS)

    def ensures(s, r):
        v = s.ghost['files']
        return [('writes the current schema', v[P] == DUMPS(CURRENT(clz))), others(v, f0, P)]

    def raises(s, x):
        return [('writes nothing when it fails', s.ghost['files'] == f0)] if x.attrs.get('by') in BY else None
    t.check_fn(ex, st, f'{K_}:_dump_schema', [STRP(P), clz], ensures, raises)


def checker(t, ex, clz, P, f0):
    """load_schema and SchemaChecker, by contract."""
    SEV = fresh('severity', I)
    mem = ex.global_name('Severity', St(), repo().modules['hyperstate.schema.schema_change'])
    names = ['INFO', 'WARN', 'ERROR']

    def load(ex, s, fn, args, kwargs, node):
        def f(s, e, k):
            ex.oblige(s, 'reads the file given', z3.BoolVal(True) if ex.topath(s, e[k[0]]).eq(P) else ex.topath(s, e[k[0]]) == P)
            return [(s, SCHEMA(s.ghost['files'][ex.topath(s, e[k[0]])])), fails(s, node, 'load')]
        return bound(ex, s, fn, args, kwargs, node, f)
    ex.contracts[f'{T}:load_schema'] = load

    def new(ex, s, cls, args, kwargs, node):
        e = dict(zip(['old', 'config_clz', 'perform_upgrade'], args), **kwargs)
        ex.oblige(s, 'compares the schema in the file', same(e['old'], SCHEMA(f0[P])))
        ex.oblige(s, 'compares with the class given', same(e['config_clz'], clz))
        ex.oblige(s, 'applies the upgrade rules', tobool_(e.get('perform_upgrade', True)))
        return [(s, ex.alloc(s, HObj(cls, {}))), fails(s, node, 'check')]
    ex.ext[f'new:{K_}:SchemaChecker'] = new
    members = [EnumMember(mem, n, None) for n in names]

    def sev(ex, s, fn, args, kwargs, node):
        r = [ex.getattr(s, mem, n, node)[0][1] for n in names]
        s.assume(0 <= SEV, SEV < 3)
        return [(s, Choice(SEV, r)), fails(s, node, 'check')]
    ex.contracts[f'{K_}:SchemaChecker.severity'] = sev
    ex.contracts[f'{K_}:SchemaChecker.print_report'] = lambda ex, s, fn, args, kwargs, node: [(s, None), fails(s, node, 'check')]
    t.assumed |= {f'{T}:load_schema', f'{K_}:SchemaChecker.__init__', f'{K_}:SchemaChecker.severity', f'{K_}:SchemaChecker.print_report'}
    return SEV


def upgrade_schema(t):
    ex, st, f0 = env(t)
    dumping(t, ex)
    P, clz = fresh('file', Path), z3.Const('clz', ClsS)
    SEV = checker(t, ex, clz, P, f0)

    def ensures(s, r):
        v = s.ghost['files']
        return [('leaves the file alone unless the change is compatible', Implies(SEV != 0, v == f0)),
                ('writes the current schema if the change is compatible', Implies(SEV == 0, v[P] == DUMPS(CURRENT(clz)))), others(v, f0, P)]

    def raises(s, x):
        ok = x.attrs.get('by') in BY or x.cls is bt('AssertionError')
        return [('writes nothing when it fails', s.ghost['files'] == f0)] if ok else None
    t.check_fn(ex, st, f'{K_}:_upgrade_schema', [STRP(P), clz], ensures, raises)


def commands(t):
    """check_schema never writes; the commands pass on the class and the files."""
    P, clz = fresh('file', Path), z3.Const('clz', ClsS)
    glob = f'global:{K_}:CONFIG_CLZ'

    ex, st, f0 = env(t)
    ex.ext[glob] = lambda ex, s: clz
    checker(t, ex, clz, P, f0)
    unwritten = lambda s, r=None: [('writes nothing', s.ghost['files'] == f0)]
    t.check_fn(ex, st, f'{K_}:check_schema', [STRP(P)], unwritten, unwritten)

    for name, callee in (('dump_schema', '_dump_schema'), ('upgrade_schema', '_upgrade_schema')):
        ex, st, f0 = env(t)
        ex.ext[glob] = lambda ex, s: clz
        st.ghost['calls'] = 0

        def con(ex, s, fn, args, kwargs, node):
            def f(s, e, k):
                ex.oblige(s, f'{name}: passes on the file', ex.topath(s, e[k[0]]) == P)
                ex.oblige(s, f'{name}: passes on the class', same(e[k[1]], clz))
                s.ghost = dict(s.ghost, calls=s.ghost['calls'] + 1)
                return [(s, None), fails(s, node, 'dump')]
            return bound(ex, s, fn, args, kwargs, node, f)
        ex.contracts[f'{K_}:{callee}'] = con
        t.assumed.add(f'{K_}:{callee}')
        t.check_fn(ex, st, f'{K_}:{name}', [STRP(P)], lambda s, r: [('does its work once', z3.BoolVal(s.ghost['calls'] == 1)), ('writes nothing itself', s.ghost['files'] == f0)],
                   lambda s, x: unwritten(s) if x.attrs.get('by') else None)


LOADEDF = z3.Function('config.in', ClsS, Str, Obj)
SCHEDF = z3.Function('schedules.in', ClsS, Str, Lst)
TEXTF = z3.Function('text.of', Obj, Lst, B, Str)


def upgrade_config(t):
    ex, st, f0 = env(t)
    P, clz = fresh('file', Path), z3.Const('clz', ClsS)
    elide, dry = fresh('elide', B), fresh('dry', B)
    text = f0[P]
    CFG, SCH = LOADEDF(clz, text), SCHEDF(clz, text)
    TEXT = TEXTF(CFG, SCH, elide)

    def empty(s, x):
        x = ex.deref(s, x)
        return x is None or isinstance(x, Ref) and isinstance(s.heap[x.a], (HList, HDict)) and not s.heap[x.a].items

    def tl(ex, s, fn, args, kwargs, node):
        def f(s, e, k):
            file, data = e['file'], e['data']
            if file is not None:
                ex.oblige(s, 'loads the file given', And(z3.BoolVal(data is None), s.ghost['files'][ex.topath(s, file)] == text))
            else:
                ex.oblige(s, 'loads the text of the file', same(data, text))
            ex.oblige(s, 'loads the class given', same(e['clz'], clz))
            ex.oblige(s, 'overrides nothing', z3.BoolVal(empty(s, e['overrides'])))
            ex.oblige(s, 'drops no extra fields', Not(tobool_(e['ignore_extra_fields'])))
            ex.oblige(s, 'upgrades from the version in the file', Not(tobool_(e['allow_missing_version'])))
            return [(s, Tup([CFG, SCH])), fails(s, node, 'load')]
        return bound(ex, s, fn, args, kwargs, node, f)

    def td(ex, s, fn, args, kwargs, node):
        def f(s, e, k):
            sch = ex.deref(s, e['schedules'])
            ex.oblige(s, 'saves the configuration that was loaded', same(e[k[0]], CFG))
            ex.oblige(s, 'keeps its schedules', same(sch, SCH))
            ex.oblige(s, 'leaves out defaults exactly when asked to', tobool_(e['elide_defaults']) == elide)
            out = [(s, TEXT), fails(s, node, 'dump')]
            if e['file'] is not None:
                s.ghost = dict(s.ghost, files=z3.Store(s.ghost['files'], ex.topath(s, e['file']), TEXT))
            return out
        return bound(ex, s, fn, args, kwargs, node, f)
    ex.contracts[f'{H}:_typed_load'] = tl
    ex.contracts[f'{H}:_typed_dump'] = td
    t.assumed |= {f'{H}:_typed_load', f'{H}:_typed_dump'}
    lines = SSeq(SLeaf(Str))

    def seq(name):
        def f(ex, s, *a):
            q = lines.build([fresh(name, x) for x in lines.sorts()])
            s.assume(q.n >= 0)
            return [(s, q)]
        return f
    ex.ext['difflib.unified_diff'] = seq('diff')
    ex.ext['difflib.ndiff'] = seq('diff')
    ex.ext['str.splitlines'] = seq('lines')

    def ensures(s, r):
        v = s.ghost['files']
        return [('writes nothing in a dry run', Implies(dry, v == f0)), ('replaces the file by the upgraded configuration', Implies(Not(dry), v[P] == TEXT)), others(v, f0, P)]

    def raises(s, x):
        return [('writes nothing when it fails', s.ghost['files'] == f0)] if x.attrs.get('by') in BY else None
    t.check_fn(ex, st, f'{K_}:_upgrade_config', [STRP(P), clz, elide, dry], ensures, raises)


def upgrade_configs(t):
    """The command: every file in turn, with the options given."""
    ex, st, f0 = env(t)
    clz = z3.Const('clz', ClsS)
    ex.ext[f'global:{K_}:CONFIG_CLZ'] = lambda ex, s: clz
    inc, dry = fresh('include_defaults', B), fresh('dry', B)
    n, arr = fresh('n', I), fresh('files', z3.ArraySort(I, Str))
    st.assume(n >= 0)
    DONE = z3.Function('upgraded', Str, B, B, Str)
    st.ghost['done'] = fresh('done0', z3.ArraySort(Str, B))
    d0 = st.ghost['done']

    def uc(ex, s, fn, args, kwargs, node):
        def f(s, e, k):
            x = e[k[0]]
            ex.oblige(s, 'passes on the class', same(e[k[1]], clz))
            ex.oblige(s, 'leaves out defaults unless told otherwise', tobool_(e[k[2]]) == Not(inc))
            ex.oblige(s, 'passes on whether it is a dry run', tobool_(e[k[3]]) == dry)
            s2 = s.fork()
            s.ghost = dict(s.ghost, done=z3.Store(s.ghost['done'], toStr(x), True))
            return [(s, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'load'}))]
        return bound(ex, s, fn, args, kwargs, node, f)
    ex.contracts[f'{K_}:_upgrade_config'] = uc
    t.assumed.add(f'{K_}:_upgrade_config')
    j, x = z3.Int('j'), z3.Const('x', Str)

    def cands(loop):
        yield 'files done so far', lambda v: forall([j], Implies(And(0 <= j, j < v.i), v.st.ghost['done'][arr[j]]), arr[j])
        yield 'only files given', lambda v: forall([x], Implies(v.st.ghost['done'][x], Or(d0[x], z3.Exists([j], And(0 <= j, j < n, arr[j] == x)))), v.st.ghost['done'][x])
    ex.loops['*'] = cands

    def ensures(s, r):
        k, y = fresh('k', I), fresh('y', Str)
        return [('upgrades every file given', Implies(And(0 <= k, k < n), s.ghost['done'][arr[k]])),
                ('upgrades only files given', Implies(And(s.ghost['done'][y], Not(d0[y])), z3.Exists([j], And(0 <= j, j < n, arr[j] == y)))),
                ('writes nothing itself', s.ghost['files'] == f0)]
    t.check_fn(ex, st, f'{K_}:upgrade_config', [Seq(n, SLeaf(Str), [arr], 0, 'tuple'), inc, dry], ensures, lambda s, x: [] if x.attrs.get('by') == 'load' else None)


TASKS = ['dump_schema', 'upgrade_schema', 'commands', 'upgrade_config', 'upgrade_configs']

TECHNIQUE = ('contract-based deductive verification: _dump_schema, _upgrade_schema, _upgrade_config and the commands are executed symbolically over '
             'ghost file contents (what each writes, when, and that nothing is written on any failing path); z3 and cvc5. That the written text '
             'loads to the same config is C01, C02 and C11 over the same _typed_load and _typed_dump')
NOTE = ('Assumed: contracts of open/write, click and difflib (no effect on files), _typed_load, _typed_dump, load_schema, dumps and '
        'SchemaChecker (constructor, severity, print_report) write no file; idempotence of the rewritten text is checked by search (bounded)')

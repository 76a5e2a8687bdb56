"""C06: upgrade rules run once each in order; dumps record the version; a document without a version is refused."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from pydv.loops import UNB
from contracts import wiring
from z3 import And, Or, Not, Implies, If, IntVal

M = 'hyperstate.schema.versioned'
I, B = z3.IntSort(), z3.BoolSort()
RuleS = z3.DeclareSort('Rule')
FA = forall
AP = z3.Function('ap', RuleS, V, V)            # what a rule makes of a document
UP = z3.Function('UP', I, I, V)                # the document before rule k of version i
LISTS = SSeq(SLeaf(RuleS))


def mk_class(ex, st, name='clz'):
    """An arbitrary class: its version, and its table of rules (any keys, any lists, in any order)."""
    shape = SMap(I, LISTS)
    rules = shape.build([fresh('rules', s) for s in shape.sorts()])
    for f in rules.facts():
        st.assume(f)
    i = fresh('i', I)
    st.assume(FA([i], rules.at(i).n >= 0, rules.at(i).n))
    N = fresh('N', I)
    cls = repo().lookup(repo().modules[M], 'Versioned')
    log = []

    def upgrade_rules(ex, st, args, kw, node):
        return [(st, ex.alloc(st, HMap(rules)))]
    obj = HObj(cls, {'version': Lam('version', lambda ex, st, a, k, n: [(st, N)]),
                     'upgrade_rules': Lam('upgrade_rules', upgrade_rules),
                     'minimum_version': Lam('minimum_version', lambda ex, st, a, k, n: [(st, 0)]), '__name__': fresh('clsname', Str)})
    return ex.alloc(st, obj), N, rules


def chain(st, rules, lo, d):
    """UP: the rules of lo, lo+1, ... applied in order to d."""
    L = lambda i: If(rules.has[i], rules.at(i).n, 0)
    i, k, j = z3.Ints('i k j')
    R = rules.at(i).leaves[0]
    st.assume(UP(lo, 0) == d)
    st.assume(FA([i, k], Implies(And(i >= lo, rules.has[i], 0 <= k, k < rules.at(i).n), UP(i, k + 1) == AP(R[k], UP(i, k))), R[k]))
    st.assume(FA([j], Implies(j > lo, UP(j, 0) == UP(j - 1, L(j - 1))), UP(j, 0)))


def up_candidates(get):
    """The current document is where the counters say it is."""
    def cands(loop):
        if not loop.isfor:
            return
        e = loop.elem(loop.st0, fresh('i', I))
        ints = [nm for nm, x in loop.env0.items() if isz(x) and x.sort() == I]
        names = [nm for nm, sh in loop.vars.items() if isinstance(sh, SLeaf) and sh.sort == V] if get is None else ['']
        for nm in names:
            g = (lambda v, nm=nm: v.get(nm)) if get is None else (lambda v: get(v.st))
            if isz(e) and e.sort() == I:
                yield f'{nm} after all earlier versions', lambda v, g=g: g(v) == UP(v.elem(v.st, v.i), 0)
            for n2 in ints:
                yield f'{nm} after the first rules of {n2}', lambda v, g=g, n2=n2: g(v) == UP(v.env[n2], v.i)
    return cands


def rule_attrs(ex):
    def attr(ex, st, v, name):
        if name == 'apply':
            def apply(ex, st, args, kw, node):
                d = ex.deref(st, args[0])
                w = ex.to_V(st, d)
                if isinstance(d, DocPtr):      # the rule may change the document in place
                    st.heap[d.a] = HDoc(fresh('spent', V))
                    st.muts[d.a] = st.muts.get(d.a, ()) + (('*', None),)
                s2 = st.fork()
                return [(st, AP(v, w)), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'rule'}))]
            return [(st, Lam('apply', apply))]
        if name == 'apply_to_schema':
            def apply_schema(ex, st, args, kw, node):
                st.ghost['schema'] = AP(v, st.ghost['schema'])
                s2 = st.fork()
                return [(st, None), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'rule'}))]
            return [(st, Lam('apply_to_schema', apply_schema))]
        return None
    ex.attrs['Rule'] = attr


def raises_with(rules, N):
    def raises(s, x):
        if x.attrs.get('by') == 'rule':
            return []
        if x.cls.name in ('AssertionError', 'ValueError'):
            i = z3.Int('i')
            return [('rejects only rules for versions that do not exist yet', z3.Exists([i], And(rules.has[i], i >= N)))]
        return None
    return raises


def apply_upgrades(t):
    ex = t.engine()
    rule_attrs(ex)
    st = St()
    clz, N, rules = mk_class(ex, st)
    d, ver = fresh('d', V), fresh('ver', I)
    chain(st, rules, ver, d)
    ex.loops['*'] = up_candidates(None)

    def ensures(s, r):
        return [('applies the rules of every version from the file\'s to the current one, once each, in order',
                 ex.to_V(s, r) == If(N > ver, UP(N, 0), d))]
    t.trust('upgrade_rules() and version() return the same rules and number at each call; a rule is a function of the document it is given, or raises')
    t.check_fn(ex, st, f'{M}:Versioned._apply_upgrades', [clz, ex.newdoc(st, d), ver], ensures, raises_with(rules, N))


def apply_schema_upgrades(t):
    ex = t.engine()
    rule_attrs(ex)
    st = St()
    clz, N, rules = mk_class(ex, st)
    d = fresh('schema', V)
    vnone, vv = fresh('vnone', B), fresh('ver', I)
    ver = If(vnone, 0, vv)
    lo = fresh('lo', I)
    st.assume(lo == ver)
    chain(st, rules, lo, d)
    st.ghost['schema'] = d
    struct = ex.alloc(st, HObj(repo().lookup(repo().modules['hyperstate.schema.types'], 'Struct'),
                               {'name': fresh('name', Str), 'fields': None, 'version': Maybe(vnone, vv)}))
    ex.loops['*'] = up_candidates(lambda s: s.ghost['schema'])

    def ensures(s, r):
        return [('upgrades the schema by the rules of every version from its own to the current one, once each, in order',
                 s.ghost['schema'] == If(N > lo, UP(N, 0), d))]
    t.check_fn(ex, st, f'{M}:Versioned._apply_schema_upgrades', [clz, struct], ensures, raises_with(rules, N))


UPG = z3.Function('upgraded', V, V, V)


def deserialize(t):
    ex = t.engine()
    st = St()
    isv = fresh('versioned', B)
    clz = z3.Const('clz', z3.DeclareSort('Cls'))
    ex.ext['inspect.isclass'] = lambda ex, st, a, kw, n: [(st, True)]
    versioned = repo().lookup(repo().modules[M], 'Versioned')
    ex.ext['issubclass'] = lambda ex, st, a, b: [(st, isv)] if a is clz and b is versioned else None
    calls = []

    def attr(ex, st, v, name):
        if name == '__name__':
            return [(st, fresh('clsname', Str))]
        if name == '_apply_upgrades':
            def f(ex, st, args, kw, node):
                fn = repo().get(f'{M}:Versioned._apply_upgrades')
                out = []
                for s, e in ex.bind_args(st, fn, [v] + list(args), kw, node):
                    if isinstance(e, Exc):
                        out.append((s, e))
                        continue
                    p = ex.deref(s, e['state_dict'])
                    r = UPG(ex.to_V(s, p), ex.to_V(s, e['version']))
                    if isinstance(p, DocPtr):
                        s.heap[p.a] = HDoc(fresh('spent', V))
                        s.muts[p.a] = s.muts.get(p.a, ()) + (('*', None),)
                    s2 = s.fork()
                    out += [(s, r), (s2, Exc(bt('Exception'), node=node, attrs={'by': 'rule'}))]
                return out
            return [(st, Lam('_apply_upgrades', f))]
        return None
    ex.attrs['Cls'] = attr
    d = fresh('d', V)
    st.assume(Or(V.is_none(d), V.is_bool(d), V.is_int(d), V.is_flt(d), V.is_str(d), V.is_lst(d), V.is_tup(d), V.is_dict(d)))

    def hasattr_(ex, st, v, name):
        v = ex.deref(st, v)
        # no builtin value the parser makes has such an attribute
        return [(st, False)] if name == 'version' and (isinstance(v, DocPtr) or isz(v) and v.eq(d)) else None
    ex.ext['hasattr'] = hasattr_
    allow = fresh('allow', B)
    self_ = ex.alloc(st, HObj(repo().lookup(repo().modules[M], 'VersionedDeserializer'), {'allow_missing_version': allow}))
    doc = ex.newdoc(st, d)
    ver = V.m(d)[lit('version')]
    has = And(V.is_dict(d), ver != V.absent, Not(V.is_none(ver)))
    rest = If(And(V.is_dict(d), ver != V.absent), V.dict(z3.Store(V.m(d), lit('version'), V.absent)), d)

    def ensures(s, r):
        r = ex.deref(s, r)
        if not (isinstance(r, Tup) and len(r.items) == 3):
            return [('returns a value and two flags', z3.BoolVal(False))]
        v, ok, ret = r.items
        ok, ret = ex.truth(s, ok), ex.truth(s, ret)
        v = ex.to_V(s, v)
        return [('leaves classes without a version alone', Implies(Not(isv), And(Not(tb(ok)), Not(tb(ret))))),
                ('accepts a document without a version only when told to', Implies(And(isv, Not(has)), allow)),
                ('upgrades from the version in the document', Implies(And(isv, has), And(tb(ok), v == UPG(rest, ver)))),
                ('keeps the rest of a document without a version', Implies(And(isv, Not(has)), And(tb(ok), v == rest))),
                ('lets the other steps of loading go on', Not(tb(ret)))]

    def raises(s, x):
        if x.attrs.get('by') == 'rule':
            return [('runs no rule for classes without a version', isv)]
        if x.cls.name == 'ValueError':
            return [('refuses only versioned documents without a version', And(isv, Not(has), Not(allow)))]
        return None
    t.assumed.add(f'{M}:Versioned._apply_upgrades')
    t.trust('the named-tuple branch of VersionedDeserializer.deserialize (the parser gives dictionaries) is not covered')
    t.check_fn(ex, st, f'{M}:VersionedDeserializer.deserialize', [self_, clz, doc, fresh('path', Str)], ensures, raises)


def tb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def add_version(t):
    ex = t.engine()
    st = St()
    isv = fresh('versioned', B)
    value = z3.Const('value', z3.DeclareSort('Obj'))
    cls = z3.Const('cls', z3.DeclareSort('Cls'))
    versioned = repo().lookup(repo().modules[M], 'Versioned')
    ex.ext['isinstance'] = lambda ex, st, a, b: [(st, isv)] if a is value and b is versioned else None
    N = fresh('N', V)
    ex.attrs['Obj'] = lambda ex, st, v, name: [(st, cls)] if name == '__class__' else [(st, Lam('version', lambda ex, st, a, k, n: [(st, N)]))] if name == 'version' else None
    ex.attrs['Cls'] = lambda ex, st, v, name: [(st, Lam('version', lambda ex, st, a, k, n: [(st, N)]))] if name == 'version' else None
    shape = SMap(Str, SLeaf(V))
    m = shape.build([fresh('attrs', s) for s in shape.sorts()])
    for f in m.facts():
        st.assume(f)
    key = lit('version')
    st.assume(Not(m.has[key]))
    attrs = ex.alloc(st, HMap(m))
    self_ = ex.alloc(st, HObj(repo().lookup(repo().modules[M], 'VersionedSerializer'), {}))
    k = z3.Const('k', Str)

    def cands(loop):
        if not loop.isfor:
            return
        for a, c in loop.cells.items():
            if c[0] != 'map':
                continue

            def part(v, a=a):
                c = v.cell(a).m
                done = And(m.has[k], m.idx(k) < v.i)
                return And(FA([k], c.has[k] == Or(And(k == key, v.entry.cell(a).m.has[key]), done), c.has[k]),
                           FA([k], Implies(done, c.at(k) == m.at(k)), c.at(k)), Implies(v.entry.cell(a).m.has[key], c.at(key) == v.entry.cell(a).m.at(key)))
            yield 'the entries copied so far', part
    ex.loops['*'] = cands

    def ensures(s, r):
        c = s.heap[attrs.a].m
        x = fresh('x', Str)
        return [('records the current version', Implies(isv, And(c.has[key], c.at(key) == N))),
                ('keeps every attribute', Implies(x != key, c.has[x] == m.has[x])),
                ('keeps the value of every attribute', Implies(And(x != key, m.has[x]), c.at(x) == m.at(x))),
                ('adds nothing to objects without a version', Implies(Not(isv), Not(c.has[key])))]
    t.trust('no configuration has a field called version')
    t.check_fn(ex, st, f'{M}:VersionedSerializer.modify_dataclass_attrs', [self_, value, attrs, fresh('path', Str)], ensures)


def loading(t):
    wiring.typed_load(t, {'version'})


def saving(t):
    wiring.typed_dump(t, {'version'})


def callers(t):
    wiring.callers(t)
    wiring.load_config(t, {'version'})


TASKS = ['apply_upgrades', 'apply_schema_upgrades', 'deserialize', 'add_version', 'loading', 'saving', 'callers']
TECHNIQUE = 'deductive verification of the upgrade loop and the version (de)serializers (pydv: contracts, loop invariants, z3/cvc5)'
NOTE = ('Proved for all versions, rule tables (any size, sparse, any order), rules and documents: _apply_upgrades, _apply_schema_upgrades, VersionedDeserializer.deserialize, '
        'VersionedSerializer.modify_dataclass_attrs. The use of these by from_dict, asdict and _typed_load is checked by generated histories only (bounded).')

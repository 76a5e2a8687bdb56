"""C08: a schema change that is called compatible breaks no document of the old class."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool
from contracts import schema
from contracts.schema import *
from contracts.docpath import FA

L = Function('loads', Sc, V, B)                 # the document loads as a value of the type
KEYOK = Function('key.loads', Sc, Str, B)       # a dict key is accepted for the type
NUMSTR, INTSTR = Function('reads.as.number', Str, B), Function('reads.as.int', Str, B)
WHOLE = Function('whole', z3.RealSort(), B)


def omits(s, k, co=None):
    """Field k of struct s may be left out: it has a default, or is a struct all of whose fields may be left out."""
    return Or(SHD(s)[k], And(Sc.is_Struct(STYPE(s)[k]), CO(Sc.si(STYPE(s)[k]))))


CO = Function('all.can.be.left.out', Sid, B)


def cobody(s):
    k = fresh('k', Str)
    return FA([k], Implies(SHAS(s)[k], omits(s, k)), SHAS(s)[k])


def prim(p, d):
    isint = Or(And(is_num(d), WHOLE(num(d))), And(V.is_str(d), INTSTR(V.s(d))))
    return If(p == lit('int'), isint, If(p == lit('float'), Or(is_num(d), And(V.is_str(d), NUMSTR(V.s(d)))), If(p == lit('str'), V.is_str(d), If(p == lit('bool'), V.is_bool(d), False))))


def same(a, d):
    """A value of an enum or literal stands for document d."""
    return Or(a == d, And(is_num(a), is_num(d), num(a) == num(d)))


def body(s, d):
    """What a document has to be to load as a value of type s, one level."""
    i, k = fresh('i', I), fresh('k', Str)
    return Or(And(Sc.is_Primitive(s), prim(Sc.pname(s), d)),
              And(Sc.is_List(s), V.is_lst(d), FA([i], Implies(And(0 <= i, i < V.ln(d)), L(Sc.li(s), V.la(d)[i])), V.la(d)[i])),
              And(Sc.is_Tuple(s), V.is_tup(d), V.tn(d) == TN(Sc.ti(s)), FA([i], Implies(And(0 <= i, i < V.tn(d)), L(TA(Sc.ti(s))[i], V.ta(d)[i])), V.ta(d)[i])),
              And(Sc.is_Dict(s), V.is_dict(d), FA([k], Implies(V.m(d)[k] != V.absent, And(KEYOK(Sc.dk(s), k), L(Sc.dv(s), V.m(d)[k]))), V.m(d)[k])),
              And(Sc.is_Union(s), z3.Exists([i], And(0 <= i, i < TN(Sc.ui(s)), L(TA(Sc.ui(s))[i], d)))),
              And(Sc.is_Struct(s), V.is_dict(d), FA([k], Implies(V.m(d)[k] != V.absent, And(SHAS(Sc.si(s))[k], L(STYPE(Sc.si(s))[k], V.m(d)[k]))), V.m(d)[k]),
                  FA([k], Implies(And(SHAS(Sc.si(s))[k], V.m(d)[k] == V.absent), omits(Sc.si(s), k)), SHAS(Sc.si(s))[k])),
              And(Sc.is_Option(s), Or(V.is_none(d), L(Sc.oi(s), d))),
              And(Sc.is_Enum(s), z3.Exists([k], And(Sc.evars(s)[k] != V.absent, same(Sc.evars(s)[k], d)))),
              And(Sc.is_Literal(s), z3.Exists([i], And(0 <= i, i < LN(Sc.lv(s)), same(LA_(Sc.lv(s))[i], d)))))


def wider(a, b):
    """Every document of a loads as b."""
    d = fresh('d', V)
    return FA([d], Implies(L(a, d), L(b, d)), L(a, d))


def base_axioms():
    s, k, m = z3.Const('s', Sid), z3.Const('k', Str), z3.Const('vs', M)
    x = z3.Const('x', Str)
    scal = lambda v: Or(is_num(v), V.is_str(v))
    l, i = z3.Const('l', Lid), z3.Int('i')
    v = z3.Const('v', V)
    return schema.axioms() + [FA([v], Implies(Or(V.is_int(v), V.is_bool(v)), WHOLE(num(v))), num(v)), FA([x], Implies(INTSTR(x), NUMSTR(x)), INTSTR(x))]


def scalars(t, st, *types):
    t.trust('enum variants and literal options are strings and numbers')
    l, k, i = z3.Const('l', Lid), fresh('k', Str), fresh('i', I)
    scal = lambda v: Or(V.is_int(v), V.is_bool(v), V.is_flt(v), V.is_str(v))
    # (about these types only: not every array of values is the variants of an enum)
    st.assume(FA([l, i], scal(LA_(l)[i]), LA_(l)[i]), *[FA([k], Or(Sc.evars(x)[k] == V.absent, scal(Sc.evars(x)[k])), Sc.evars(x)[k]) for x in types])


def equal(ex, st, a, b):
    """== on schemas: equal ones accept the same documents (generated __eq__; that of Literal is proved)."""
    if isz(a) and isz(b) and a.sort() == Sc and b.sort() == Sc:
        r, k = fresh('equal', B), fresh('k', Str)
        st.assume(Implies(r, And(wider(a, b), wider(b, a), kind_of(a) == kind_of(b), FA([k], KEYOK(a, k) == KEYOK(b, k), KEYOK(a, k)),
                                 Implies(Sc.is_Struct(a), CO(Sc.si(a)) == CO(Sc.si(b))))), Implies(a == b, r))
        st.assume(Implies(And(Sc.is_Primitive(a), Sc.is_Primitive(b)), r == (Sc.pname(a) == Sc.pname(b))))
        return [(st, r)]
    for x, y in ((a, b), (b, a)):
        if isz(x) and x.sort() == Sc and (isinstance(y, str) or y is None):
            return [(st, False)]
    return None


def subtype_call(ex, st, self, args, kwargs, node):
    o = args[0] if args else kwargs['other']
    r = fresh('is_subtype', B)
    st.assume(Implies(r, wider(self, o)))
    return [(st, r)]


def setup(t, axioms=()):
    ex = t.engine(axioms=base_axioms() + list(axioms))
    ex.merge = t.prover.noext = True
    st = St()
    schema.install(t, ex, methods={'is_subtype': subtype_call})
    ex.ext['eq'] = equal
    prev = ex.ext['isinstance']

    def isinst(ex, st, a, b):
        if isz(a) and a.sort() == V and isinstance(b, BType):
            r = {'str': V.is_str(a), 'int': Or(V.is_int(a), V.is_bool(a)), 'bool': V.is_bool(a), 'float': V.is_flt(a)}.get(b.name)
            if r is not None:
                return [(st, r)]
        return prev(ex, st, a, b)
    ex.ext['isinstance'] = isinst
    can = lambda ex, st, fn, a, k, n: [(s, e if isinstance(e, Exc) else Or(tobool(ex.deref(s, e['field']).attrs['has_default']), And(Sc.is_Struct(ex.deref(s, e['field']).attrs['type']), CO(Sc.si(ex.deref(s, e['field']).attrs['type'])))))
                                       for s, e in ex.bind_args(st, fn, a, k, n)]
    ex.contracts[f'{T}:_can_omit'] = can
    return ex, st


def subtype(kind):
    def task(t):
        ex, st = setup(t)
        ex.merge = kind != 'Literal'
        a, b, d = z3.Const('old', Sc), z3.Const('new', Sc), z3.Const('doc', V)
        st.assume(is_(kind, a), L(a, d) == body(a, d), L(b, d) == body(b, d), d != V.absent)
        scalars(t, st, a, b)
        cands = sub_cands(ex)
        ex.loops['*'] = cands
        fn = f'{T}:{kind}.is_subtype'

        def ensures(s, r):
            return [('a subtype loads from every document of the type', Implies(And(tobool(ex.truth(s, r)), L(a, d)), L(b, d)))]
        t.check_fn(ex, st, fn, [a, b], ensures, lambda s, x: [('fails on no pair of types', FALSE)])
    return task


def sub_cands(ex):
    def cands(loop):
        return []
    return cands


FALSE = z3.BoolVal(False)


def can_omit(t):
    ex, st = setup(t)
    s, k = fresh('struct', Sid), fresh('k', Str)
    f = schema.fields(s).at(k)
    st.assume(SHAS(s)[k])
    ex.contracts[f'{T}:_can_omit'] = ex.contracts[f'{T}:_can_omit']
    inner = Sc.si(STYPE(s)[k])
    st.assume(CO(inner) == cobody(inner))

    def ensures(st, r):
        return [('tells whether the field may be left out', tobool(ex.truth(st, r)) == omits(s, k))]
    t.check_fn(ex, st, f'{T}:_can_omit', [f], ensures, lambda s, x: [('fails on no field', FALSE)])


# ---- the checker: what it finds when nothing is incompatible ---------------------------------------------------------
SC = 'hyperstate.schema.schema_checker'
NE = Function('no.empty.structs', Sid, B)


def nonempty(t, st):
    t.trust('every struct has a field, at every depth')
    s, k = z3.Const('s', Sid), z3.Const('k', Str)
    st.assume(FA([s], Implies(NE(s), SN(s) >= 1), NE(s)), FA([s, k], Implies(And(NE(s), SHAS(s)[k], Sc.is_Struct(STYPE(s)[k])), NE(Sc.si(STYPE(s)[k]))), (NE(s), STYPE(s)[k])))


def ne(x):
    """No empty structs in a type."""
    return NET(x)


NET = Function('no.empty.structs.in', Sc, B)


def net_axioms(st):
    x, i = z3.Const('x', Sc), fresh('i', I)
    s, k = z3.Const('s', Sid), z3.Const('k', Str)
    st.assume(FA([x], Implies(NET(x), And(Implies(Sc.is_List(x), NET(Sc.li(x))), Implies(Sc.is_Option(x), NET(Sc.oi(x))), Implies(Sc.is_Dict(x), NET(Sc.dv(x))), Implies(Sc.is_Struct(x), NE(Sc.si(x))))), NET(x)),
              FA([x, i], Implies(And(NET(x), Sc.is_Tuple(x), 0 <= i, i < TN(Sc.ti(x))), NET(TA(Sc.ti(x))[i])), (NET(x), TA(Sc.ti(x))[i])),
              FA([s, k], Implies(And(NE(s), SHAS(s)[k]), NET(STYPE(s)[k])), (NE(s), STYPE(s)[k])))


def severe(ex, st, change, node):
    """[(state, is the change more than INFO)], by the change's own severity()."""
    out = []
    mod = repo().modules['hyperstate.schema.schema_change']
    for s, f in ex.getattr(st, change, 'severity', node):
        for s2, r in ([(s, f)] if isinstance(f, Exc) else ex.call(s, f, [], {}, node)):
            if isinstance(r, Exc):
                out.append((s2, r))
                continue
            for s3, e in ex.resolve_choice(s2, r) if isinstance(r, Choice) else [(s2, r)]:
                if not isinstance(e, EnumMember):
                    raise Unsupported(f'severity {e!r}')
                out.append((s3, e.name != 'INFO'))
    return out


def checker(t):
    ex, st = setup(t)
    scalars(t, st, z3.Const('old', Sc), z3.Const('new', Sc))
    nonempty(t, st)
    net_axioms(st)
    chs = ex.alloc(st, HObj(Ext('Changes'), {'bad': fresh('bad', B)}))

    def append(ex, st, v):
        def f(ex, st, a, k, n):
            out = []
            for s, b in severe(ex, st, a[0], n):
                if isinstance(b, Exc):
                    out.append((s, b))
                    continue
                s.heap[chs.a] = HObj(Ext('Changes'), {'bad': z3.simplify(Or(s.heap[chs.a].attrs['bad'], z3.BoolVal(b)))})
                out.append((s, None))
            return out
        return [(st, Lam('append', f))]
    ex.ext['attr:Changes.append'] = append
    me = repo().lookup(repo().modules[SC], 'SchemaChecker')
    self_ = ex.alloc(st, HObj(me, {'changes': chs}))
    path = Seq(fresh('n', I), SLeaf(Str), [fresh('path', SA)], 0, 'list')
    st.assume(path.n >= 0)
    path = ex.alloc(st, HSeq(path))
    bad = lambda s: s.heap[chs.a].attrs['bad']

    def add(name, pre, ok):
        """The contract of a function that records changes: what holds unless something bad is recorded."""
        def f(ex, st, fn, a, k, n):
            out = []
            for s, e in ex.bind_args(st, fn, a, k, n):
                if not isinstance(e, Exc):
                    args = list(e.values())[1:]
                    args = [x for x in args if isz(x) and x.sort() == Sc]
                    ex.oblige(s, f'{name} is called for types of the right kind', pre(*args))
                    new = fresh('bad', B)
                    s.assume(Implies(bad(s), new), Implies(Not(new), ok(*args)))
                    s.heap[chs.a] = HObj(Ext('Changes'), {'bad': new})
                    e = None
                out.append((s, e))
            return out
        ex.contracts[f'{SC}:SchemaChecker.{name}'] = f
    add('_all_new', lambda x: Sc.is_Struct(x), lambda x: CO(Sc.si(x)))
    add('_all_gone', lambda x: And(Sc.is_Struct(x), NET(x)), lambda x: FALSE)
    add('_find_changes', lambda x, y: And(NET(x), Not(Sc.is_Nothing(x)), Not(Sc.is_Nothing(y))), compatible)
    ex.contracts[f'{SC}:_comparable'] = lambda ex, st, fn, a, k, n: [(st, fresh('comparable', V))]
    t.trust('_comparable raises on no default and has no effect (what it compares is the business of C09)')
    sid, key = z3.Const('s', Sid), z3.Const('k', Str)
    return ex, st, self_, path, chs, bad


def compatible(old, new):
    return And(wider(old, new), Implies(And(Sc.is_Struct(old), Sc.is_Struct(new), CO(Sc.si(old))), CO(Sc.si(new))))


def no_nothing(st, *types):
    """No type is made of Nothing: about these types, and about the types in a tuple or a struct."""
    i, s, k, t = fresh('i', I), z3.Const('s', Sid), z3.Const('k', Str), z3.Const('t', Tid)
    N = Sc.is_Nothing
    st.assume(FA([t, i], Not(N(TA(t)[i])), TA(t)[i]), FA([s, k], Not(N(STYPE(s)[k])), STYPE(s)[k]))
    for x in types:
        st.assume(Not(N(x)), Implies(Sc.is_List(x), Not(N(Sc.li(x)))), Implies(Sc.is_Option(x), Not(N(Sc.oi(x)))), Implies(Sc.is_Dict(x), Not(N(Sc.dv(x)))))


def all_new(t, gone=False):
    ex, st, self_, path, chs, bad = checker(t)
    x, k = z3.Const('struct', Sc), fresh('k', Str)
    s, m = Sc.si(x), schema.fields(Sc.si(x))
    st.assume(Sc.is_Struct(x), CO(s) == cobody(s), NET(x))

    def cands(loop):
        yield 'what was bad stays', lambda q: Implies(q.entry.cell(chs.a).attrs['bad'], q.cell(chs.a).attrs['bad'])
        yield 'fields seen may be left out', lambda q: Or(q.cell(chs.a).attrs['bad'], FA([k], Implies(And(SHAS(s)[k], m.idx(k) < q.i), omits(s, k)), SHAS(s)[k]))
        yield 'bad once there was a field', lambda q: Or(q.cell(chs.a).attrs['bad'], q.i == 0)
    ex.loops['*'] = cands
    b0 = bad(st)

    def ensures(s2, r):
        return [('keeps what was recorded', Implies(b0, bad(s2))), ('a removed struct is incompatible', bad(s2)) if gone else ('structs that are added without defaults are incompatible', Or(bad(s2), CO(s)))]
    t.check_fn(ex, st, f'{SC}:SchemaChecker._all_{"gone" if gone else "new"}', [self_, x, path], ensures, lambda s, x: [('fails on no struct', FALSE)])


def all_gone(t):
    all_new(t, True)


def find_changes(kind):
    def task(t):
        ex, st, self_, path, chs, bad = checker(t)
        no_nothing(st, z3.Const('old', Sc), z3.Const('new', Sc))
        a, b, d, k = z3.Const('old', Sc), z3.Const('new', Sc), z3.Const('doc', V), fresh('k', Str)
        st.assume(Not(Sc.is_Nothing(a)), Not(Sc.is_Nothing(b)), NET(a), d != V.absent, L(a, d) == body(a, d), L(b, d) == body(b, d))
        if kind == 'other':
            st.assume(kind_of(a) != kind_of(b), *[is_(q, a) == (kind_of(a) == KIND[q]) for q in KINDS], *[is_(q, b) == (kind_of(b) == KIND[q]) for q in KINDS])
        else:
            st.assume(is_(kind, a), is_(kind, b))
        so, sn = Sc.si(a), Sc.si(b)
        if kind == 'Struct':
            st.assume(CO(so) == cobody(so), CO(sn) == cobody(sn))
        mo, mn = schema.fields(so), schema.fields(sn)
        eo, en = Sc.evars(a), Sc.evars(b)

        def seen_new(q):
            both = And(wider(STYPE(so)[k], STYPE(sn)[k]), Implies(omits(so, k), omits(sn, k)))
            return FA([k], Implies(And(SHAS(sn)[k], mn.idx(k) < q.i), If(SHAS(so)[k], both, omits(sn, k))), SHAS(sn)[k])

        def cands(loop):
            if chs.a not in loop.cells:
                return
            z = lambda q: q.cell(chs.a).attrs['bad']
            yield 'what was bad stays', lambda q: Implies(q.entry.cell(chs.a).attrs['bad'], z(q))
            if kind == 'Struct':
                yield 'new fields seen are compatible', lambda q: Or(z(q), seen_new(q))
                yield 'old fields seen are still there', lambda q: Or(z(q), FA([k], Implies(And(SHAS(so)[k], mo.idx(k) < q.i), SHAS(sn)[k]), SHAS(so)[k]))
            if kind == 'Enum':
                yield 'new variants seen have their old values', lambda q: Or(z(q), FA([k], Implies(And(en[k] != V.absent, u.kidx(en, k) < q.i, eo[k] != V.absent), same(eo[k], en[k])), en[k]))
                yield 'old variants seen are still there', lambda q: Or(z(q), FA([k], Implies(And(eo[k] != V.absent, u.kidx(eo, k) < q.i), en[k] != V.absent), eo[k]))
            if kind == 'Tuple':
                i = fresh('i', I)
                yield 'items seen are compatible', lambda q: Or(z(q), FA([i], Implies(And(0 <= i, i < q.i), wider(TA(Sc.ti(a))[i], TA(Sc.ti(b))[i])), TA(Sc.ti(a))[i]))
        ex.loops['*'] = cands
        b0 = bad(st)

        def ensures(s, r):
            out = [('keeps what was recorded', Implies(b0, bad(s))), ('every document still loads unless something incompatible is recorded', Or(bad(s), Implies(L(a, d), L(b, d))))]
            if kind in ('Struct', 'other'):
                out.append(('what may be left out may still be left out unless something incompatible is recorded', Or(bad(s), Implies(And(Sc.is_Struct(a), Sc.is_Struct(b), CO(so)), CO(sn)))))
            return out
        t.check_fn(ex, st, f'{SC}:SchemaChecker._find_changes', [self_, a, b, path], ensures, lambda s, x: [('fails on no pair of types', FALSE)], label=f'_find_changes ({kind})')
    return task


def literal_eq(t):
    """Literal.__eq__: equal literals accept the same documents."""
    ex, st = setup(t)
    scalars(t, st, z3.Const('self', Sc), z3.Const('other', Sc))
    a, b, d = z3.Const('self', Sc), z3.Const('other', Sc), z3.Const('doc', V)
    st.assume(Sc.is_Literal(a), L(a, d) == body(a, d), L(b, d) == body(b, d), d != V.absent, *[is_(q, b) == (kind_of(b) == KIND[q]) for q in KINDS])

    def ensures(s, r):
        if isinstance(r, (Ext, Builtin)) or r is NotImplemented:
            return [('gives up only on other types', Not(Sc.is_Literal(b)))]
        r = tobool(ex.truth(s, r))
        return [('equal literals accept the same documents', Implies(r, L(a, d) == L(b, d))), ('equals only literals', Implies(r, Sc.is_Literal(b)))]
    t.check_fn(ex, st, f'{T}:Literal.__eq__', [a, b], ensures, lambda s, x: [('fails on no pair', FALSE)])


# ---- the overall severity, and renames ----------------------------------------------------------------------------
Chg = z3.DeclareSort('Change')
SEVT = Function('severity', Chg, I)             # 0 INFO, 1 WARN, 2 ERROR


def severity(t):
    """INFO is reported only if every change is INFO (the maximum over the changes)."""
    ex = t.engine()
    st = St()
    ms = [ex.getattr(st, ex.global_name('Severity', st, repo().modules['hyperstate.schema.schema_change']), n, None)[0][1] for n in ('INFO', 'WARN', 'ERROR')]
    n, c = fresh('n', I), fresh('changes', z3.ArraySort(I, Chg))
    i = fresh('i', I)
    st.assume(n >= 0, FA([i], And(0 <= SEVT(c[i]), SEVT(c[i]) <= 2), c[i]))
    ex.attrs['Change'] = lambda ex, st, x, name: [(st, Lam(name, lambda ex, s, a, k, nd: [(s, Choice(SEVT(x), ms))]))] if name == 'severity' else None
    me = repo().lookup(repo().modules[SC], 'SchemaChecker')
    self_ = ex.alloc(st, HObj(me, {'changes': ex.alloc(st, HSeq(Seq(n, SLeaf(Chg), [c], 0, 'list')))}))

    def rank(x):
        if isinstance(x, Choice):
            r = IntVal(0)
            for j, o in enumerate(x.options):
                r = If(x.tag == j, rank(o), r)
            return r
        return IntVal(ms.index(x)) if x in ms else None

    def is_max(r, upto):
        return And(FA([i], Implies(And(0 <= i, i < upto), SEVT(c[i]) <= r), c[i]), Or(r == 0, z3.Exists([i], And(0 <= i, i < upto, SEVT(c[i]) == r))))

    def cands(loop):
        for nm in loop.names:
            def inv(q, nm=nm):
                x = q.get(nm)
                r = rank(x) if isinstance(x, (Choice, EnumMember)) else None
                return None if r is None else And(0 <= r, r <= 2, is_max(r, q.i))
            yield f'{nm} is the highest so far', inv
    ex.loops['*'] = cands

    def ensures(s, r):
        r = rank(r)
        return [('the maximum over the changes', FALSE if r is None else is_max(r, n))]
    t.check_fn(ex, st, f'{SC}:SchemaChecker.severity', [self_], ensures, lambda s, x: [('fails on no changes', FALSE)])


def renames(what):
    """Renames turn a removed and an added item into a change that is as severe, or one that breaks nothing."""
    def task(t):
        ex, st, self_, path, chs, bad = checker(t)
        enum = what == 'enum_variant'
        Path = z3.DeclareSort('FieldPath')
        NAMES = Function('last.name', Path, Str)
        ex.ext['getitem'] = lambda ex, st, o, i, *r: [(st, NAMES(o))] if isz(o) and o.sort() == Path and i == -1 else None
        sim = fresh('similarity', z3.RealSort())
        ex.contracts[f'{SC}:name_similarity'] = lambda ex, st, fn, a, k, n: [(st, fresh('similarity', z3.RealSort()))]
        t.trust('name_similarity is a number (C17)')
        calls = []

        def find(ex, st, fn, a, k, n):
            out = []
            for s, e in ex.bind_args(st, fn, a, k, n):
                if isinstance(e, Exc):
                    out.append((s, e))
                    continue
                vals = list(e.values())[-4:]
                ca, cr, similarity, renamed = vals
                calls.append(1)

                def mk(c, w):
                    at = {'field': z3.Const(w + '.field', Path)}
                    if enum:
                        at.update(enum_name=z3.Const(w + '.enum', Str), variant=z3.Const(w + '.variant', Str), variant_value=z3.Const(w + '.value', V))
                    else:
                        at.update(type=z3.Const(w + '.type', Sc), default=z3.Const(w + '.default', V), has_default=z3.Const(w + '.has_default', B))
                    return ex.alloc(s, HObj(c, at)), at
                (added, aa), (removed, ra) = mk(ca, 'added'), mk(cr, 'removed')
                ex.oblige(s, 'pairs an added with a removed item', z3.BoolVal(isinstance(ca, ClassVal) and isinstance(cr, ClassVal) and (ca.name, cr.name) == (('EnumVariantAdded', 'EnumVariantRemoved') if enum else ('FieldAdded', 'FieldRemoved'))))
                same_enum = And(aa['field'] == ra['field'], aa['enum_name'] == ra['enum_name']) if enum else And(wider(ra['type'], aa['type']), ra['has_default'] == aa['has_default'])
                for s2, r in ex.call(s, similarity, [added, removed], {}, n):
                    if isinstance(r, Exc):
                        out.append((s2, r))
                        continue
                    none = z3.BoolVal(True) if r is None else r.isnone if isinstance(r, Maybe) else z3.BoolVal(False)
                    s2.assume(Not(none))
                    ex.oblige(s2, 'pairs only variants of one enum in one field' if enum else 'pairs only fields whose values load as the new type', same_enum)
                    for s3, ch in ex.call(s2, renamed, [added, removed], {}, n):
                        if isinstance(ch, Exc):
                            out.append((s3, ch))
                            continue
                        for s4, b in severe(ex, s3, ch, n):
                            if isinstance(b, Exc):
                                out.append((s4, b))
                                continue
                            ex.oblige(s4, 'a rename is incompatible unless it keeps the value of a variant', Or(z3.BoolVal(bool(b)), u.pyeq(ra['variant_value'], aa['variant_value']) if enum else FALSE))
                            out.append((s4, None))
            return out
        ex.contracts[f'{SC}:SchemaChecker._find_renames'] = find
        t.check_fn(ex, st, f'{SC}:SchemaChecker._find_{what}_renames', [self_], lambda s, r: [('looks for renames once', z3.BoolVal(len(set(calls)) == 1))], lambda s, x: [('fails on no changes', FALSE)])
    return task


field_renames, variant_renames = renames('field'), renames('enum_variant')
def constructor(t):
    """A checker compares the upgraded old schema with that of the class, then looks for renames."""
    ex, st = setup(t)
    old, new = z3.Const('old', Sc), z3.Const('new', Sc)
    st.assume(Sc.is_Struct(old), Sc.is_Struct(new))
    me = repo().lookup(repo().modules[SC], 'SchemaChecker')
    self_ = ex.alloc(st, HObj(me, {}))
    upgrade = fresh('perform_upgrade', B)

    def did(what):
        def f(ex, st, *a):
            st.ghost = dict(st.ghost, done=tuple(st.ghost.get('done', ())) + (what,))
            return [(st, None)]
        return f

    def up(ex, st, a, k, n):
        ex.oblige(st, 'upgrades the old schema', a[0] == old if a and isz(a[0]) else FALSE)
        return did('upgrades')(ex, st)
    clz = ex.alloc(st, HObj(repo().lookup(repo().modules['hyperstate.schema.versioned'], 'Versioned'), {'_apply_schema_upgrades': Lam('_apply_schema_upgrades', up)}))
    ex.contracts[f'{T}:materialize_type'] = lambda ex, st, fn, a, k, n: [(st, new)]

    def find(ex, st, fn, a, k, n):
        out = []
        for s, e in ex.bind_args(st, fn, a, k, n):
            if not isinstance(e, Exc):
                o, w, p = list(e.values())[1:4]
                p = ex.deref(s, p)
                ex.oblige(s, 'compares the old schema with that of the class, from the top', And(o == old, w == new, z3.BoolVal(isinstance(p, Ref) and isinstance(s.heap[p.a], HList) and not s.heap[p.a].items or isinstance(p, Tup) and not p.items)))
                e = did('changes')(ex, s)[0][1]
            out.append((s, e))
        return out
    ex.contracts[f'{SC}:SchemaChecker._find_changes'] = find
    ex.contracts[f'{SC}:SchemaChecker._find_field_renames'] = did('renames')
    ex.contracts[f'{SC}:SchemaChecker._find_enum_variant_renames'] = did('renames')
    t.assumed.add(f'{T}:materialize_type')

    def ensures(s, r):
        d = [x for x in s.ghost.get('done', ())]
        core = [x for x in d if x != 'upgrades']
        return [('looks for changes once, and then for renames', z3.BoolVal(core == ['changes', 'renames', 'renames'])),
                ('after upgrading the old schema, if asked to', upgrade == z3.BoolVal('upgrades' in d) if d.count('upgrades') <= 1 and (not d or 'upgrades' not in d or d[0] == 'upgrades') else FALSE)]
    t.check_fn(ex, st, f'{SC}:SchemaChecker.__init__', [self_, old, clz, upgrade], ensures, lambda s, x: [('fails on no pair of schemas', FALSE)])


SUBS, FINDS = [], []
for k in KINDS:
    globals()['subtype_' + k.lower()] = subtype(k)
    SUBS.append('subtype_' + k.lower())
for k in KINDS[:-1] + ['other']:
    globals()['changes_' + k.lower()] = find_changes(k)
    FINDS.append('changes_' + k.lower())
TASKS = SUBS + ['literal_eq', 'can_omit', 'severity', 'constructor', 'field_renames', 'variant_renames', 'all_new', 'all_gone'] + FINDS
TECHNIQUE = 'contracts on is_subtype of every kind of type, _can_omit, SchemaChecker (_find_changes, _all_new, _all_gone, severity, constructor, renames) and every severity()'
NOTE = ('"A document loads as a value of a type" is spelled out level by level over schemas. Proved: is_subtype answers yes only if every document of the one type loads as the other; '
        'if _find_changes records nothing more severe than INFO (severity() of each change is executed), every document of the old type loads as the new one; the overall severity is '
        'the maximum; a rename is reported as INFO only between variants of one enum with equal values, which documents hold. Recursive calls by contract, so at any depth. Assumed: '
        'materialize_type describes what from_dict accepts, equal schemas accept the same documents (proved for Literal), every struct has a field, options and variants are strings '
        'and numbers. The list surgery of _find_renames and the schema side of upgrade rules are only searched for counterexamples (bounded).')
BOUNDED = 'list handling in _find_renames, apply_to_schema of the rules, materialize_type'

"""C09: the checker reports every difference once, and nothing else."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool
from contracts import schema, c08
from contracts.schema import *
from contracts.c08 import SC, FALSE, scalars, same
from contracts.docpath import FA

EQ = Function('equal.schemas', Sc, Sc, B)
CMP = Function('comparable', V, V)              # what defaults are compared by
SAME = Function('no.difference', Sc, Sc, B)
COUNTS = ['FieldAdded', 'FieldRemoved', 'DefaultValueChanged', 'DefaultValueRemoved', 'EnumVariantAdded', 'EnumVariantRemoved', 'EnumVariantValueChanged', '_all_new', '_all_gone', '_find_changes']
ONE, ZERO = IntVal(1), IntVal(0)


def ind(c):
    return If(c, ONE, ZERO)


def samebody(a, b):
    i, j, k = fresh('i', I), fresh('j', I), fresh('k', Str)
    so, sn, eo, en = Sc.si(a), Sc.si(b), Sc.evars(a), Sc.evars(b)
    la, lb = Sc.lv(a), Sc.lv(b)
    sub = lambda x, y: FA([i], Implies(And(0 <= i, i < LN(x)), z3.Exists([j], And(0 <= j, j < LN(y), same(LA_(y)[j], LA_(x)[i])))), LA_(x)[i])
    return Or(And(Sc.is_Primitive(a), Sc.is_Primitive(b), Sc.pname(a) == Sc.pname(b)), And(Sc.is_List(a), Sc.is_List(b), SAME(Sc.li(a), Sc.li(b))), And(Sc.is_Option(a), Sc.is_Option(b), SAME(Sc.oi(a), Sc.oi(b))),
              And(Sc.is_Dict(a), Sc.is_Dict(b), EQ(Sc.dk(a), Sc.dk(b)), SAME(Sc.dv(a), Sc.dv(b))), And(Sc.is_Union(a), Sc.is_Union(b), EQ(a, b)),
              And(Sc.is_Tuple(a), Sc.is_Tuple(b), TN(Sc.ti(a)) == TN(Sc.ti(b)), FA([i], Implies(And(0 <= i, i < TN(Sc.ti(a))), SAME(TA(Sc.ti(a))[i], TA(Sc.ti(b))[i])), TA(Sc.ti(a))[i], TA(Sc.ti(b))[i])),
              And(Sc.is_Enum(a), Sc.is_Enum(b), FA([k], And((eo[k] == V.absent) == (en[k] == V.absent), Implies(eo[k] != V.absent, u.pyeq(eo[k], en[k]))), eo[k], en[k])),
              And(Sc.is_Literal(a), Sc.is_Literal(b), sub(la, lb), sub(lb, la)))


def fields_differ(so, sn, k):
    """Is something reported for field k (in the new struct or the old)."""
    o, n = STYPE(so)[k], STYPE(sn)[k]
    return If(And(SHAS(so)[k], SHAS(sn)[k]), Or(Sc.is_Struct(o) != Sc.is_Struct(n), Not(SAME(o, n)), default_changed(so, sn, k), default_removed(so, sn, k)), Or(SHAS(so)[k], SHAS(sn)[k]))


def default_changed(so, sn, k):
    return And(SHD(so)[k], SHD(sn)[k], Not(u.pyeq(CMP(SDEF(so)[k]), CMP(SDEF(sn)[k]))))


def default_removed(so, sn, k):
    return And(SHD(so)[k], Not(SHD(sn)[k]))


class Env:
    pass


def setup(t, kind=None):
    ex, st, self_, path, chs, _ = c08.checker(t)
    c08.no_nothing(st, z3.Const('old', Sc), z3.Const('new', Sc))
    E = Env()
    E.ex, E.st, E.self, E.path, E.chs = ex, st, self_, path, chs
    q = ex.to_seq(st, path)
    E.n, E.p = toz(q.n), q.leaves[0]
    E.a, E.b, E.k0 = z3.Const('old', Sc), z3.Const('new', Sc), z3.Const('watched', Str)
    ex.ext['eq'] = equal
    st.heap[chs.a] = HObj(Ext('Changes'), dict({c: ZERO for c in COUNTS}, any=z3.BoolVal(False)))
    E.get = lambda s, c: s.heap[chs.a].attrs[c]

    def count(s, c, hit):
        at = dict(s.heap[chs.a].attrs)
        at[c] = z3.simplify(at[c] + ind(hit))
        s.heap[chs.a] = HObj(Ext('Changes'), at)
    E.count = count

    def below(s, x, extra):
        """(is x the path, or the path and one more name; that name)"""
        x = ex.deref(s, x)
        r = ex.to_seq(s, x)
        i = fresh('i', I)
        at = lambda j: toStr(r.at(j))
        eqs = FA([i], Implies(And(0 <= i, i < E.n), at(i) == E.p[i]), E.p[i])
        return And(toz(r.n) == E.n + extra, eqs), at(E.n)
    E.below = below

    def attr(s, ch, name):
        h = s.heap[ch.a]
        return h.attrs[name]

    def append(ex, st, v):
        def f(ex, s, a, k, n):
            ch = ex.deref(s, a[0])
            h = s.heap[ch.a] if isinstance(ch, Ref) else None
            if not isinstance(h, HObj):
                raise Unsupported('a change that is not an object')
            name = h.cls.name
            at = lambda nm: ex.deref(s, h.attrs[nm])
            at_v = lambda nm: ex.to_V(s, h.attrs[nm])
            so, sn, eo, en = Sc.si(E.a), Sc.si(E.b), Sc.evars(E.a), Sc.evars(E.b)
            if name in ('FieldAdded', 'FieldRemoved', 'DefaultValueChanged', 'DefaultValueRemoved'):
                ok, k1 = below(s, at('field'), 1)
                ex.oblige(s, f'{name} names a field of the struct', ok)
                if name in ('FieldAdded', 'FieldRemoved'):
                    x = E.whole if E.whole is not None else (sn if name == 'FieldAdded' else so)
                    ex.oblige(s, f'{name} describes the field', And(at('type') == STYPE(x)[k1], at_v('default') == SDEF(x)[k1], tobool(ex.truth(s, at('has_default'))) == SHD(x)[k1]))
                else:
                    ex.oblige(s, f'{name} says what the default was', And(at_v('old') == SDEF(so)[k1], at_v('new') == SDEF(sn)[k1] if name == 'DefaultValueChanged' else True))
                count(s, name, k1 == E.k0)
            elif name.startswith('EnumVariant'):
                ok, _ = below(s, at('field'), 0)
                vn = toStr(at('variant'))
                val = {'EnumVariantAdded': lambda: at_v('variant_value') == en[vn], 'EnumVariantRemoved': lambda: at_v('variant_value') == eo[vn],
                       'EnumVariantValueChanged': lambda: And(at_v('old_value') == eo[vn], at_v('new_value') == en[vn])}[name]()
                ex.oblige(s, f'{name} names the field, the enum and the value', And(ok, toStr(at('enum_name')) == Sc.ename(E.b), val))
                count(s, name, vn == E.k0)
            elif name == 'TypeChanged':
                ok, _ = below(s, at('field'), 0)
                ex.oblige(s, 'TypeChanged names the field and the types', And(ok, at('old') == E.a, at('new') == E.b))
                ex.oblige(s, 'TypeChanged is reported only where the types differ', Not(E.same))
            elif name in ('LiteralValuesAdded', 'LiteralValuesRemoved'):
                ok, _ = below(s, at('field'), 0)
                x, w, i = z3.Const('option', V), ex.as_set(s, at('values')), fresh('i', I)
                isin = lambda l: z3.Exists([i], And(0 <= i, i < LN(l), u.pyeq(LA_(l)[i], x)))
                src, oth = (Sc.lv(E.b), Sc.lv(E.a)) if name == 'LiteralValuesAdded' else (Sc.lv(E.a), Sc.lv(E.b))
                ex.oblige(s, f'{name} names the field and the options', And(ok, z3.simplify(w[x]) == And(isin(src), Not(isin(oth))) if w is not None else FALSE))
                s.ghost = dict(s.ghost, lits=tuple(s.ghost.get('lits', ())) + (name,))
            else:
                ex.oblige(s, f'{name} is no change that is found here', FALSE)
            at2 = dict(s.heap[chs.a].attrs, any=z3.BoolVal(True))
            s.heap[chs.a] = HObj(Ext('Changes'), at2)
            return [(s, None)]
        return [(st, Lam('append', f))]
    ex.ext['attr:Changes.append'] = append

    def callee(name, args, extra):
        def f(ex, st, fn, a, k, n):
            out = []
            for s, e in ex.bind_args(st, fn, a, k, n):
                if not isinstance(e, Exc):
                    vals = list(e.values())[1:]
                    ts, p = vals[:-1], vals[-1]
                    m = extra(E)
                    ok, k1 = below(s, p, m)
                    if not m:
                        k1 = E.k0
                    ex.oblige(s, f'{name} looks at the right part, under its path', And(ok, args(E, ts, k1)))
                    count(s, name, k1 == E.k0)
                    at2 = dict(s.heap[chs.a].attrs)
                    at2['any'] = Or(at2['any'], Not(SAME(*ts)) if len(ts) == 2 else z3.BoolVal(True))
                    s.heap[chs.a] = HObj(Ext('Changes'), at2)
                    e = None
                out.append((s, e))
            return out
        ex.contracts[f'{SC}:SchemaChecker.{name}'] = f
    E.callee = callee
    ex.contracts[f'{SC}:_comparable'] = lambda ex, st, fn, a, k, n: [(s, e if isinstance(e, Exc) else CMP(ex.to_V(s, list(e.values())[0]))) for s, e in ex.bind_args(st, fn, a, k, n)]
    E.whole, E.same = None, FALSE
    return E


def equal(ex, st, a, b):
    if isz(a) and isz(b) and a.sort() == Sc and b.sort() == Sc:
        st.assume(Implies(And(Sc.is_Primitive(a), Sc.is_Primitive(b)), EQ(a, b) == (Sc.pname(a) == Sc.pname(b))))
        return [(st, EQ(a, b))]
    return None


def leaves(gone):
    def task(t):
        E = setup(t)
        ex, st = E.ex, E.st
        x = E.a
        s, m = Sc.si(x), schema.fields(Sc.si(x))
        st.assume(Sc.is_Struct(x), c08.NET(x))
        E.whole = s
        me, ev = ('_all_gone', 'FieldRemoved') if gone else ('_all_new', 'FieldAdded')
        for nm in ('_all_new', '_all_gone', '_find_changes'):
            E.callee(nm, lambda E, ts, k1, nm=nm: And(SHAS(s)[k1], ts[0] == STYPE(s)[k1], Sc.is_Struct(ts[0])) if nm == me else FALSE, lambda E: 1)
        k0 = E.k0

        def counts(seen):
            isst = Sc.is_Struct(STYPE(s)[k0])
            return {c: If(seen, ind(Not(isst)) if c == ev else ind(isst) if c == me else ZERO, ZERO) for c in COUNTS}

        def cands(loop):
            if E.chs.a not in loop.cells:
                return
            for c in COUNTS:
                yield f'{c}: as often as fields were seen', lambda q, c=c: q.cell(E.chs.a).attrs[c] == counts(And(SHAS(s)[k0], m.idx(k0) < q.i))[c]
        ex.loops['*'] = cands

        def ensures(s2, r):
            exp = counts(SHAS(s)[k0])
            return [(f'every leaf field is reported once ({c})', E.get(s2, c) == exp[c]) for c in COUNTS]
        t.check_fn(ex, st, f'{SC}:SchemaChecker.{me}', [E.self, x, E.path], ensures, lambda s, x: [('fails on no struct', FALSE)])
    return task


all_new, all_gone = leaves(False), leaves(True)


def changes(kind):
    def task(t):
        E = setup(t)
        ex, st, a, b, k0 = E.ex, E.st, E.a, E.b, E.k0
        st.assume(Not(Sc.is_Nothing(a)), Not(Sc.is_Nothing(b)), c08.NET(a))
        if kind == 'other':
            st.assume(kind_of(a) != kind_of(b), *[is_(q, x) == (kind_of(x) == KIND[q]) for q in KINDS for x in (a, b)])
        else:
            st.assume(is_(kind, a), is_(kind, b))
        so, sn, eo, en = Sc.si(a), Sc.si(b), Sc.evars(a), Sc.evars(b)
        mo, mn = schema.fields(so), schema.fields(sn)
        E.same = samebody(a, b)
        i = fresh('i', I)
        O, N = STYPE(so)[k0], STYPE(sn)[k0]
        struct = kind == 'Struct'
        E.callee('_all_new', lambda E, ts, k1: And(SHAS(sn)[k1], ts[0] == STYPE(sn)[k1], Sc.is_Struct(ts[0])) if struct else FALSE, lambda E: 1)
        E.callee('_all_gone', lambda E, ts, k1: And(SHAS(so)[k1], ts[0] == STYPE(so)[k1], Sc.is_Struct(ts[0])) if struct else FALSE, lambda E: 1)
        inner = {'List': lambda ts: And(ts[0] == Sc.li(a), ts[1] == Sc.li(b)), 'Option': lambda ts: And(ts[0] == Sc.oi(a), ts[1] == Sc.oi(b)), 'Dict': lambda ts: And(ts[0] == Sc.dv(a), ts[1] == Sc.dv(b)),
                 'Tuple': lambda ts: z3.Exists([i], And(0 <= i, i < TN(Sc.ti(a)), ts[0] == TA(Sc.ti(a))[i], ts[1] == TA(Sc.ti(b))[i]))}
        E.callee('_find_changes', (lambda E, ts, k1: And(SHAS(so)[k1], SHAS(sn)[k1], ts[0] == STYPE(so)[k1], ts[1] == STYPE(sn)[k1])) if struct else lambda E, ts, k1: inner[kind](ts) if kind in inner else FALSE, lambda E: 1 if struct else 0)
        both = And(SHAS(so)[k0], SHAS(sn)[k0])
        rec = And(both, Sc.is_Struct(O) == Sc.is_Struct(N))
        ho, hn = eo[k0] != V.absent, en[k0] != V.absent

        def expected(new, old):
            """How often each thing happens for the watched name, once it was seen among the new and the old ones."""
            x = {c: ZERO for c in COUNTS}
            if kind == 'Struct':
                x['FieldAdded'] = ind(And(new, Not(Sc.is_Struct(N)), Or(Not(SHAS(so)[k0]), Sc.is_Struct(O))))
                x['_all_new'] = ind(And(new, Sc.is_Struct(N), Or(Not(SHAS(so)[k0]), Not(Sc.is_Struct(O)))))
                x['FieldRemoved'] = ind(And(new, SHAS(so)[k0], Sc.is_Struct(N), Not(Sc.is_Struct(O)))) + ind(And(old, Not(SHAS(sn)[k0]), Not(Sc.is_Struct(O))))
                x['_all_gone'] = ind(And(new, SHAS(so)[k0], Sc.is_Struct(O), Not(Sc.is_Struct(N)))) + ind(And(old, Not(SHAS(sn)[k0]), Sc.is_Struct(O)))
                x['_find_changes'] = ind(And(new, rec))
                x['DefaultValueChanged'] = ind(And(new, rec, default_changed(so, sn, k0)))
                x['DefaultValueRemoved'] = ind(And(new, rec, default_removed(so, sn, k0)))
            elif kind == 'Enum':
                x['EnumVariantAdded'] = ind(And(new, Not(ho)))
                x['EnumVariantValueChanged'] = ind(And(new, ho, Not(u.pyeq(eo[k0], en[k0]))))
                x['EnumVariantRemoved'] = ind(And(old, Not(hn)))
            return x
        if struct:
            seen_new, seen_old = lambda j: And(SHAS(sn)[k0], mn.idx(k0) < j), lambda j: And(SHAS(so)[k0], mo.idx(k0) < j)
            all_new, all_old = SHAS(sn)[k0], SHAS(so)[k0]
        else:
            seen_new, seen_old = lambda j: And(hn, u.kidx(en, k0) < j), lambda j: And(ho, u.kidx(eo, k0) < j)
            all_new, all_old = hn, ho
        k = fresh('k', Str)

        def cands(loop):
            if E.chs.a not in loop.cells:
                return
            g = lambda q, c: q.cell(E.chs.a).attrs[c]
            yield 'what was found stays', lambda q: Implies(g(q.entry, 'any'), g(q, 'any'))
            if kind in ('Struct', 'Enum'):
                for c in COUNTS:
                    yield f'{c}: as often as there are differences seen (first)', lambda q, c=c: g(q, c) == expected(seen_new(q.i), False)[c]
                    yield f'{c}: as often as there are differences seen (second)', lambda q, c=c: g(q, c) == expected(all_new, seen_old(q.i))[c]
            if kind == 'Tuple':
                yield 'found something where items differ', lambda q: Or(g(q, 'any'), FA([i], Implies(And(0 <= i, i < q.i), SAME(TA(Sc.ti(a))[i], TA(Sc.ti(b))[i])), TA(Sc.ti(a))[i], TA(Sc.ti(b))[i]))
                yield 'finds nothing where they do not', lambda q: Implies(FA([i], Implies(And(0 <= i, i < TN(Sc.ti(a))), SAME(TA(Sc.ti(a))[i], TA(Sc.ti(b))[i])), TA(Sc.ti(a))[i], TA(Sc.ti(b))[i]), Not(g(q, 'any')))
        ex.loops['*'] = cands

        def ensures(s, r):
            exp = expected(all_new, all_old)
            out = []
            if kind in ('Struct', 'Enum'):
                out += [(f'every difference is reported once ({c})', E.get(s, c) == exp[c]) for c in COUNTS]
            else:
                out.append(('reports something exactly where there is a difference', E.get(s, 'any') == Not(E.same)))
                if kind in ('List', 'Option'):
                    out.append(('looks into the inner type once', E.get(s, '_find_changes') == 1))
            if kind == 'Literal':
                l = s.ghost.get('lits', ())
                j = fresh('j', I)
                for name, p, q in (('LiteralValuesAdded', Sc.lv(b), Sc.lv(a)), ('LiteralValuesRemoved', Sc.lv(a), Sc.lv(b))):
                    i1 = fresh('i', I)
                    every = FA([i1], Implies(And(0 <= i1, i1 < LN(p)), z3.Exists([j], And(0 <= j, j < LN(q), u.pyeq(LA_(q)[j], LA_(p)[i1])))), LA_(p)[i1])
                    out.append((f'{name} exactly where there are such options', z3.BoolVal(name in l) == Not(every)))
                out.append(('reports options once', z3.BoolVal(len(set(l)) == len(l))))
            return out
        t.check_fn(ex, st, f'{SC}:SchemaChecker._find_changes', [E.self, a, b, E.path], ensures, lambda s, x: [('fails on no pair of types', FALSE)], label=f'_find_changes ({kind})')
    return task


FINDS = []
for k in KINDS[:-1] + ['other']:
    globals()['changes_' + k.lower()] = changes(k)
    FINDS.append('changes_' + k.lower())
severity, constructor, field_renames, variant_renames, literal_eq = c08.severity, c08.constructor, c08.field_renames, c08.variant_renames, c08.literal_eq
TASKS = FINDS + ['all_new', 'all_gone', 'severity', 'constructor', 'field_renames', 'variant_renames', 'literal_eq']
TECHNIQUE = 'contracts on SchemaChecker: _find_changes for every kind of old type, _all_new, _all_gone, the constructor, severity(), both rename searches'
NOTE = ('Proved level by level, for an arbitrary name: each field, variant, option and element is compared, recorded as added, removed or changed exactly when it is, once, with the right '
        'content and path; nothing is recorded between equal types and something is between different ones; the overall severity is the maximum of the severities; a rename is '
        'only ever one of a removed and an added item of one kind. Recursive calls by contract, so at any depth. Assumed or only searched for counterexamples (bounded): list surgery '
        'in _find_renames, dump and load of the schema file and its format comparison, materialize_type, no struct is empty.')
BOUNDED = 'list handling in _find_renames, schema dump/load round trip and _comparable, materialize_type'

"""Schemas (hyperstate.schema.types) as values of the logic."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.front import Ext
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool
from contracts.docpath import FA
from z3 import And, Or, Not, Implies, If, IntVal, Function, ArraySort

T = 'hyperstate.schema.types'
I, B = z3.IntSort(), z3.BoolSort()
Sid = z3.DeclareSort('StructS')                 # a struct
Tid = z3.DeclareSort('TypesS')                  # a sequence of types (of a tuple or union)
Lid = z3.DeclareSort('ValuesS')                 # a sequence of literal values
_S = z3.Datatype('Sc')
_Sf = z3.DatatypeSort('Sc')
_S.declare('Primitive', ('pname', Str))
_S.declare('List', ('li', _Sf))
_S.declare('Tuple', ('ti', Tid))
_S.declare('Dict', ('dk', _Sf), ('dv', _Sf))
_S.declare('Union', ('ui', Tid))
_S.declare('Struct', ('si', Sid))
_S.declare('Option', ('oi', _Sf))
_S.declare('Enum', ('ename', Str), ('evars', M))
_S.declare('Literal', ('lv', Lid))
_S.declare('Nothing')
Sc = z3.CreateDatatypes(_S)[0]
KINDS = ['Primitive', 'List', 'Tuple', 'Dict', 'Union', 'Struct', 'Option', 'Enum', 'Literal', 'Nothing']
SN, SKEYS, SHAS = Function('struct.n', Sid, I), Function('struct.keys', Sid, SA), Function('struct.has', Sid, ArraySort(Str, B))
SNAMES, STYPE = Function('struct.field.name', Sid, ArraySort(Str, Str)), Function('struct.field.type', Sid, ArraySort(Str, Sc))
SDEF, SHD = Function('struct.field.default', Sid, ArraySort(Str, V)), Function('struct.field.has_default', Sid, ArraySort(Str, B))
SNAME, SVER = Function('struct.name', Sid, Str), Function('struct.version', Sid, V)
TN, TA = Function('types.n', Tid, I), Function('types.a', Tid, ArraySort(I, Sc))
LN, LA_ = Function('values.n', Lid, I), Function('values.a', Lid, LA)
ScKind = z3.DeclareSort('ScKind')
KIND = {k: z3.Const('kind.' + k, ScKind) for k in KINDS}
FIELD = Ext('types.Field')
FSHAPE = SRec(FIELD, {'name': SLeaf(Str), 'type': SLeaf(Sc), 'default': SLeaf(V), 'has_default': SLeaf(B)})


def is_(k, s):
    return getattr(Sc, 'is_' + k)(s)


def fields(i):
    return MapVal(Str, SHAS(i), FSHAPE, [SNAMES(i), STYPE(i), SDEF(i), SHD(i)], SN(i), SKEYS(i))


def axioms():
    s, t, l, k, i = z3.Const('s', Sid), z3.Const('t', Tid), z3.Const('l', Lid), z3.Const('k', Str), z3.Int('i')
    m = fields(s)
    return [FA([s], SN(s) >= 0, SN(s)), FA([t], TN(t) >= 0, TN(t)), FA([l], LN(l) >= 0, LN(l)), z3.Distinct(*KIND.values()),
            FA([s, k], SNAMES(s)[k] == k, SNAMES(s)[k]), FA([s, k], SDEF(s)[k] != V.absent, SDEF(s)[k]), FA([l, i], LA_(l)[i] != V.absent, LA_(l)[i]),
            FA([s, i], Implies(And(0 <= i, i < SN(s)), And(SHAS(s)[SKEYS(s)[i]], m.idx(SKEYS(s)[i]) == i)), SKEYS(s)[i]),
            FA([s, k], Implies(SHAS(s)[k], And(0 <= m.idx(k), m.idx(k) < SN(s), SKEYS(s)[m.idx(k)] == k)), SHAS(s)[k])]


def kind_of(s):
    r = KIND['Nothing']
    for k in KINDS[:-1]:
        r = If(is_(k, s), KIND[k], r)
    return r


# attribute -> {kind: value}
def attrs(v):
    return {'type': {'Primitive': lambda: Sc.pname(v), 'Option': lambda: Sc.oi(v)},
            'inner': {'List': lambda: Sc.li(v), 'Tuple': lambda: types(Sc.ti(v))},
            'key': {'Dict': lambda: Sc.dk(v)}, 'val': {'Dict': lambda: Sc.dv(v)}, 'types': {'Union': lambda: types(Sc.ui(v))},
            'fields': {'Struct': lambda: fields(Sc.si(v))}, 'name': {'Struct': lambda: SNAME(Sc.si(v)), 'Enum': lambda: Sc.ename(v)},
            'version': {'Struct': lambda: SVER(Sc.si(v))}, 'allowed_values': {'Literal': lambda: Seq(LN(Sc.lv(v)), SLeaf(V), [LA_(Sc.lv(v))], 0, 'list')}}


def types(t):
    return Seq(TN(t), SLeaf(Sc), [TA(t)], 0, 'list')


def cls_kind(b):
    return b.name if isinstance(b, ClassVal) and b.name in KINDS and b.mod.name == T else None


def install(t, ex, methods=None):
    prev = ex.ext.get('isinstance')

    def isinst(ex, st, a, b):
        a = ex.deref(st, a)
        if isz(a) and a.sort() == Sc:
            k = cls_kind(b)
            return [(st, is_(k, a))] if k else [(st, False)]
        if cls_kind(b):
            return [(st, False)]
        return prev(ex, st, a, b) if prev else None
    ex.ext['isinstance'] = isinst

    def attr(ex, st, v, name):
        if name == '__class__':
            return [(st, kind_of(v))]
        if methods and name in methods:
            return [(st, Lam(name, lambda ex, s, a, k, n: methods[name](ex, s, v, a, k, n)))]
        if name == 'variants':
            cells = st.ghost.get(('variants',))
            out = []
            for s, b in ex.split(st, Sc.is_Enum(v)):
                if b:
                    c = ex.newdoc(s, V.dict(Sc.evars(v)))
                    out.append((s, c))
                else:
                    out += ex.raise_(s, 'AttributeError', None)
            return out
        tab = attrs(v).get(name)
        if tab is None:
            return ex.raise_(st, 'AttributeError', None)
        out, cur = [], st
        for k, f in tab.items():
            nxt = None
            for s, b in ex.split(cur, is_(k, v)):
                if b:
                    out.append((s, f()))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        return out + ex.raise_(cur, 'AttributeError', None)
    ex.attrs['Sc'] = attr
    ex.ext['typeof'] = lambda ex, st, x, prev=ex.ext.get('typeof'): [(st, kind_of(x))] if isz(x) and x.sort() == Sc else prev(ex, st, x) if prev else None
    t.trust('schemas are well formed: a struct\'s table of fields has the names of its fields as keys')


# ---- where a path of names leads --------------------------------------------------------------------------------
UNW = Function('unwrapped', Sc, Sc)             # without Options
WALK = Function('walk', Sc, SA, I, Sc)          # the struct after i names, Nothing if there is none


def walk_axioms():
    s, p, i, j = z3.Const('s', Sc), z3.Const('p', SA), z3.Int('i'), z3.Int('j')
    return [FA([s], UNW(s) == If(Sc.is_Option(s), UNW(Sc.oi(s)), s), UNW(s)), FA([s, p], WALK(s, p, 0) == s, WALK(s, p, 0)),
            FA([s, p, i, j], Implies(And(0 <= i, j == i + 1), WALK(s, p, j) == walk_step(WALK(s, p, i), p[i])), (WALK(s, p, i), WALK(s, p, j))),
            FA([s, p, i], Implies(0 <= i, WALK(s, p, i + 1) == walk_step(WALK(s, p, i), p[i])), (WALK(s, p, i), p[i]))]


def walk_step(s, k):
    x = UNW(STYPE(Sc.si(s))[k])
    return If(And(Sc.is_Struct(s), SHAS(Sc.si(s))[k], Sc.is_Struct(x)), x, Sc.Nothing)


def lost(t=None):
    """Once there is no struct there is none further on."""
    s, p, i, j = z3.Const('s', Sc), z3.Const('p', SA), z3.Int('i'), z3.Int('j')
    st = lambda j: Implies(And(0 <= i, i <= j, Not(Sc.is_Struct(WALK(s, p, i)))), Not(Sc.is_Struct(WALK(s, p, j))))
    if t is not None:
        t.prove('lemma lost-path: base', [], st(i))
        t.prove('lemma lost-path: step', [i <= j, st(j), WALK(s, p, j + 1) == walk_step(WALK(s, p, j), p[j])], st(j + 1))
    return FA([s, p, i, j], st(j), (WALK(s, p, i), WALK(s, p, j)))


def found(s, p, n):
    """(is there a field on path p of length n >= 1, its struct)"""
    w = WALK(s, p, n - 1)
    return And(Sc.is_Struct(w), SHAS(Sc.si(w))[p[n - 1]]), Sc.si(w)


def find_field(t):
    ex = t.engine(axioms=axioms() + walk_axioms())
    st = St()
    install(t, ex)
    s, P, n = z3.Const('schema', Sc), fresh('path', SA), fresh('n', I)
    st.assume(n >= 1, Sc.is_Struct(s), lost(t))

    def cands(loop):
        for nm in loop.vars:
            def at(v, nm=nm):
                x = v.get(nm)
                return x == WALK(s, P, v.i) if isz(x) and x.sort() == Sc else None
            yield f'{nm} is where the path leads', at
            yield f'{nm} is a struct', lambda v, nm=nm: Sc.is_Struct(v.get(nm))
            yield f'{nm} without options', lambda v, nm=nm: UNW(v.get(nm)) == UNW(v.entry.get(nm))
    ex.loops['*'] = cands

    def ensures(st, r):
        ok, i = found(s, P, n)
        r = ex.deref(st, r)
        k = P[n - 1]
        if r is None:
            return [('finds nothing only where there is nothing', Not(ok))]
        if isinstance(r, Maybe):
            none, r = r.isnone, r.val
        else:
            none = z3.BoolVal(False)
        a = r.attrs
        return [('finds a field exactly where there is one', none == Not(ok)),
                ('finds the field of that path', Implies(ok, And(a['type'] == STYPE(i)[k], a['default'] == SDEF(i)[k], tobool(a['has_default']) == SHD(i)[k])))]
    t.check_fn(ex, st, f'{T}:Struct.find_field', [s, Seq(n, SLeaf(Str), [P], 0, 'list')], ensures, lambda s, x: None)

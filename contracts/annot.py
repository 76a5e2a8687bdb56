"""The reflection that loading and saving rely on: type annotations, dataclasses, named tuples and enums."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.front import Ext
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool, IterSpec
from z3 import And, Or, Not, Implies, If, IntVal, Store, Select, Function, ArraySort

I, R_, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
FA = forall
FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)
S, H = 'hyperstate.serde', 'hyperstate.hyperstate'
WEAK, NAME = lit('!weak ref'), lit('!__name__')
Dflt, Deser = z3.DeclareSort('Dflt'), z3.DeclareSort('Deser')
MISSING = z3.Const('MISSING', Dflt)
DVAL = Function('default.value', Dflt, V)            # the value of a default, or what a factory returns
FHAS = Function('fields.has', Cls, ArraySort(Str, B))
FN = Function('fields.n', Cls, I)
FKEYS = Function('fields.keys', Cls, SA)
FNAMEA = Function('fields.name', Cls, ArraySort(Str, Str))
FTYA = Function('fields.type', Cls, ArraySort(Str, Ty))
FDEFA = Function('fields.default', Cls, ArraySort(Str, Dflt))
FFACA = Function('fields.factory', Cls, ArraySort(Str, Dflt))
SUBC = Function('subclass', Cls, Cls, B)
EHAS = Function('enum.values', Cls, ArraySort(V, B))
CNAME = Function('class.name', Cls, Str)
FIELD = Ext('dataclasses.Field')
FSHAPE = SRec(FIELD, {'name': SLeaf(Str), 'type': SLeaf(Ty), 'default': SLeaf(Dflt), 'default_factory': SLeaf(Dflt)})

# the relations the contracts speak about; children are related by these, one level is spelled out by the *body functions
OK = Function('of.type', Ty, V, B)                   # v is a value of type t
USED = Function('loaded.from', Ty, V, V, B)          # r is what document v gives for type t
BUILT = Function('built.from', Ty, V, V, B)          # r is built from field defaults and the values weakly given in w
REPL = Function('replaced', V, V, V, B)              # r is default d with the values weakly given in w
PURE = Function('document', V, B)


def fields_map(c):
    return MapVal(Str, FHAS(c), FSHAPE, [FNAMEA(c), FTYA(c), FDEFA(c), FFACA(c)], FN(c), FKEYS(c))


def hasdef(c, f):
    return Or(FDEFA(c)[f] != MISSING, FFACA(c)[f] != MISSING)


def defv(c, f):
    return If(FDEFA(c)[f] != MISSING, DVAL(FDEFA(c)[f]), DVAL(FFACA(c)[f]))


def weakly(x):
    return And(V.is_dict(x), V.m(x)[WEAK] != V.absent)


def given(x):
    return And(x != V.absent, Not(weakly(x)))


def fields_axioms():
    c, k, i = z3.Const('c', Cls), z3.Const('k', Str), z3.Int('i')
    m = fields_map(c)
    return [FA([c, k], FNAMEA(c)[k] == k, FNAMEA(c)[k]), FA([c], FN(c) >= 0, FN(c)),
            FA([c, i], Implies(And(0 <= i, i < FN(c)), And(FHAS(c)[FKEYS(c)[i]], m.idx(FKEYS(c)[i]) == i)), FKEYS(c)[i]),
            FA([c, k], Implies(FHAS(c)[k], And(0 <= m.idx(k), m.idx(k) < FN(c), FKEYS(c)[m.idx(k)] == k)), FHAS(c)[k])]


def tcl(t):
    """The class of a dataclass annotation."""
    return t.arg(0) if t.decl().eq(Ty.TData) else Ty.tc(t)


def plain(v):
    """A value as it comes out of a document."""
    return And(v != V.absent, Or(V.is_none(v), V.is_bool(v), V.is_int(v), V.is_flt(v), V.is_str(v), V.is_lst(v), V.is_tup(v), V.is_dict(v), V.is_nt(v)),
               Implies(V.is_lst(v), V.ln(v) >= 0), Implies(V.is_tup(v), V.tn(v) >= 0))


def pure_facts():
    v, k, i = z3.Const('v', V), z3.Const('k', Str), z3.Int('i')
    return fields_axioms() + [FA([v, k], Implies(And(PURE(v), V.is_dict(v), V.m(v)[k] != V.absent), PURE(V.m(v)[k])), (PURE(v), V.m(v)[k])),
            FA([v, k], Implies(And(PURE(v), V.is_nt(v), V.ntm(v)[k] != V.absent), PURE(V.ntm(v)[k])), (PURE(v), V.ntm(v)[k])),
            FA([v, i], Implies(And(PURE(v), V.is_lst(v), 0 <= i, i < V.ln(v)), PURE(V.la(v)[i])), (PURE(v), V.la(v)[i])),
            FA([v, i], Implies(And(PURE(v), V.is_tup(v), 0 <= i, i < V.tn(v)), PURE(V.ta(v)[i])), (PURE(v), V.ta(v)[i]))]


# ---- one level of "v is a value of type T" --------------------------------------------------------------------
def okprim(t, v):
    return Or(And(Ty.is_TInt(t), Or(V.is_int(v), V.is_bool(v))), And(Ty.is_TFlt(t), V.is_flt(v)), And(Ty.is_TStr(t), V.is_str(v)),
              And(Ty.is_TBool(t), V.is_bool(v)), And(Ty.is_TNoneT(t), V.is_none(v)))


def okobj(c, om, ok=None):
    """The fields of an instance hold values of their types."""
    ok = OK if ok is None else ok
    f = fresh('f', Str)
    return FA([f], Implies(FHAS(c)[f], And(om[f] != V.absent, ok(FTYA(c)[f], om[f]))), om[f], FHAS(c)[f])


def instok(v, ok=None):
    return Implies(V.is_obj(v), okobj(V.cls(v), V.om(v), ok))


def okbody(t, v, opt=True, ok=None):
    ok = OK if ok is None else ok
    i, f = fresh('i', I), fresh('f', Str)
    cases = [okprim(t, v),
             And(Ty.is_TList(t), V.is_lst(v), FA([i], Implies(And(0 <= i, i < V.ln(v)), ok(Ty.tl(t), V.la(v)[i])), V.la(v)[i])),
             And(Ty.is_TTup(t), V.is_tup(v), V.tn(v) == Ty.ttn(t), FA([i], Implies(And(0 <= i, i < V.tn(v)), ok(Ty.tta(t)[i], V.ta(v)[i])), V.ta(v)[i])),
             And(Ty.is_TDict(t), V.is_dict(v), FA([f], Implies(V.m(v)[f] != V.absent, ok(Ty.tv(t), V.m(v)[f])), V.m(v)[f])),
             And(Ty.is_TUnion(t), z3.Exists([i], And(0 <= i, i < Ty.tun(t), Or(ok(Ty.tua(t)[i], v), okprim(Ty.tua(t)[i], v))))),
             And(Ty.is_TData(t), V.is_obj(v), SUBC(V.cls(v), Ty.tc(t)), okobj(V.cls(v), V.om(v), ok)),
             And(Ty.is_TEnum(t), V.is_enm(v), V.ecls(v) == Ty.te(t), EHAS(Ty.te(t))[V.eval(v)]),
             And(Ty.is_TLit(t), Not(V.is_obj(v)), z3.Exists([i], And(0 <= i, i < Ty.tln(t), pyeq(Ty.tla(t)[i], v)))),
             And(Ty.is_TOther(t), instok(v, ok))]
    if opt:
        cases.append(And(Ty.is_TOpt(t), Or(V.is_none(v), ok(Ty.to(t), v), okbody(Ty.to(t), v, False, ok))))
    return Or(cases)


# ---- one level of "r is what document v gives for type T" -----------------------------------------------------
def text_of(v):
    """The string that a bare name stands for."""
    return If(V.is_nt(v), V.str(V.ntname(v)), v)


def bare(v):
    return And(V.is_nt(v), u.klen(V.ntm(v)) == 0)


def usedprim(t, v, r):
    return Or(And(Ty.is_TInt(t), Or(And(Or(V.is_int(v), V.is_bool(v)), r == v), And(V.is_flt(v), V.is_int(r), z3.ToReal(V.i(r)) == V.r(v)),
                                    And(V.is_str(v), isnum(V.s(v)), V.is_int(r), z3.ToReal(V.i(r)) == str2num(V.s(v))))),
              And(Ty.is_TFlt(t), Or(And(V.is_flt(v), r == v), And(Or(V.is_int(v), V.is_bool(v)), r == V.flt(num(v))),
                                    And(V.is_str(v), isnum(V.s(v)), r == V.flt(str2num(V.s(v)))))),
              And(Ty.is_TStr(t), Or(And(V.is_str(v), r == v), And(bare(v), r == V.str(V.ntname(v))))),
              And(Ty.is_TBool(t), V.is_bool(v), r == v), And(Ty.is_TNoneT(t), V.is_none(v), r == v))


def frel(c, f, x, y, om=True):
    """Field f of an instance holds y, given x in the document (om), or its value among the constructor's arguments is y."""
    t = FTYA(c)[f]
    return If(given(x), And(y != V.absent, USED(t, x, y)),
              If(Not(hasdef(c, f)), And(Ty.is_TData(t), y != V.absent, BUILT(t, If(x == V.absent, WEAKDOC, x), y)),
                 If(x != V.absent, And(y != V.absent, REPL(defv(c, f), x, y)), y == (defv(c, f) if om else V.absent))))


WEAKDOC = V.dict(Store(EMPTY_M, WEAK, V.bool(TRUE)))


def docmap(v):
    """The fields a document gives for a struct."""
    return If(V.is_dict(v), V.m(v), If(V.is_nt(v), V.ntm(v), EMPTY_M))


def builtbody(c, w, r):
    """r is an instance of c built from the weakly given w: every field as frel says."""
    f = fresh('f', Str)
    return And(V.is_obj(r), V.cls(r) == c, FA([f], Implies(FHAS(c)[f], frel(c, f, w[f], V.om(r)[f])), V.om(r)[f], FHAS(c)[f]))


def useddata(c, v, r, ig):
    k, f = fresh('k', Str), fresh('f', Str)
    m = docmap(v)
    return And(Or(V.is_dict(v), V.is_nt(v), And(V.is_tup(v), V.tn(v) == 0)), V.is_obj(r), V.cls(r) == c,
               FA([f], Implies(And(FHAS(c)[f], f != NAME), frel(c, f, m[f], V.om(r)[f])), V.om(r)[f]),
               FA([k], Implies(And(m[k] != V.absent, k != NAME, Not(weakly(m[k]))), Or(FHAS(c)[k], ig)), m[k]))


def replbody(d, w, r):
    f = fresh('f', Str)
    c, om, o2 = V.cls(d), V.om(d), V.om(r)
    return If(Not(V.is_obj(d)), r == d,
              And(V.is_obj(r), V.cls(r) == c,
                  FA([f], Implies(FHAS(c)[f], If(w[f] == V.absent, o2[f] == om[f], If(weakly(w[f]), REPL(om[f], w[f], o2[f]), USED(FTYA(c)[f], w[f], o2[f])))), o2[f])))


def usedbody(t, v, r, ig, opt=True):
    i, f = fresh('i', I), fresh('f', Str)
    ua = Ty.tua(t)[i]
    cases = [usedprim(t, v, r),
             And(Ty.is_TList(t), V.is_lst(v), V.is_lst(r), V.ln(r) == V.ln(v), FA([i], Implies(And(0 <= i, i < V.ln(v)), USED(Ty.tl(t), V.la(v)[i], V.la(r)[i])), V.la(r)[i])),
             And(Ty.is_TTup(t), V.is_tup(v), V.is_tup(r), V.tn(r) == V.tn(v), FA([i], Implies(And(0 <= i, i < V.tn(v)), USED(Ty.tta(t)[i], V.ta(v)[i], V.ta(r)[i])), V.ta(r)[i])),
             And(Ty.is_TDict(t), V.is_dict(v), V.is_dict(r), FA([f], If(V.m(v)[f] == V.absent, V.m(r)[f] == V.absent, And(V.m(r)[f] != V.absent, USED(Ty.tv(t), V.m(v)[f], V.m(r)[f]))), V.m(r)[f])),
             And(Ty.is_TUnion(t), z3.Exists([i], And(0 <= i, i < Ty.tun(t), Or(USED(ua, v, r), usedprim(ua, v, r))))),
             And(Ty.is_TData(t), useddata(Ty.tc(t), v, r, ig)),
             And(Ty.is_TEnum(t), V.is_enm(r), pyeq(V.eval(r), v)),
             And(Ty.is_TLit(t), Or(r == v, And(bare(v), r == V.str(V.ntname(v))))),
             Ty.is_TOther(t)]
    if opt:
        cases.append(And(Ty.is_TOpt(t), If(V.is_none(v), V.is_none(r), usedbody(Ty.to(t), v, r, ig, False))))
    return Or(cases)


# ---- what typing, dataclasses, enum and named tuples do -----------------------------------------------------------
def cases(ex, st, table):
    """[(state, value)] for the first condition that holds; the last entry's condition is ignored."""
    out = []
    cur = st
    for c, val in table[:-1]:
        nxt = None
        for s, b in ex.split(cur, c):
            if b:
                out.append((s, val))
            else:
                nxt = s
        if nxt is None:
            return out
        cur = nxt
    return out + [(cur, table[-1][1])]


def raising(ex, rs, node=None):
    out = []
    for s, v in rs:
        out += ex.raise_(s, 'AttributeError', node) if v is NOATTR else [(s, v() if callable(v) else v)]
    return out


NOATTR = object()


def isclass(t):
    return Or(Ty.is_TInt(t), Ty.is_TFlt(t), Ty.is_TStr(t), Ty.is_TBool(t), Ty.is_TNoneT(t), Ty.is_TData(t), Ty.is_TEnum(t))


def origin(t, other):
    un = repo().ext_name('typing.Union')
    return [(Ty.is_TList(t), bt('list')), (Ty.is_TTup(t), bt('tuple')), (Ty.is_TDict(t), bt('dict')), (Or(Ty.is_TOpt(t), Ty.is_TUnion(t)), un),
            (Ty.is_TLit(t), repo().ext_name('typing.Literal')), (None, other)]


def tyargs(t, other):
    ts = lambda n, a: Seq(n, SLeaf(Ty), [a], 0, 'tuple')
    return [(Ty.is_TList(t), Tup([Ty.tl(t)])), (Ty.is_TTup(t), ts(Ty.ttn(t), Ty.tta(t))), (Ty.is_TDict(t), Tup([Ty.tk(t), Ty.tv(t)])),
            (Ty.is_TOpt(t), Tup([Ty.to(t), Ty.TNoneT])), (Ty.is_TUnion(t), ts(Ty.tun(t), Ty.tua(t))),
            (Ty.is_TLit(t), Seq(Ty.tln(t), SLeaf(V), [Ty.tla(t)], 0, 'tuple')), (None, other)]


def wellformed(t):
    """Facts about an annotation that typing guarantees."""
    return And(Implies(Ty.is_TUnion(t), And(Ty.tun(t) >= 2, Not(And(Ty.tun(t) == 2, Ty.tua(t)[1] == Ty.TNoneT)))), Implies(Ty.is_TTup(t), Ty.ttn(t) >= 1),
               Implies(Ty.is_TLit(t), Ty.tln(t) >= 1), Implies(Ty.is_TOpt(t), And(Not(Ty.is_TOpt(Ty.to(t))), Not(Ty.is_TNoneT(Ty.to(t))), Not(Ty.is_TUnion(Ty.to(t))))))


def instance_of(v, t, other):
    return Or(okprim(t, v), And(Ty.is_TData(t), V.is_obj(v), SUBC(V.cls(v), Ty.tc(t))), And(Ty.is_TEnum(t), V.is_enm(v), V.ecls(v) == Ty.te(t)), And(Ty.is_TOther(t), other))


def kwroot(ex, st, args, kwargs):
    """The keyword arguments of a call as one map."""
    m = EMPTY_M
    if '**' in kwargs:
        m = V.m(ex.to_V(st, kwargs['**']))
    for k, v in kwargs.items():
        if k != '**':
            m = Store(m, lit(k), ex.to_V(st, v))
    return m


def construct(ex, st, t, km, node):
    """t(**km) for a dataclass: given fields, else defaults; TypeError for a missing or an unknown one."""
    c = tcl(t)
    f, bad = fresh('f', Str), fresh('badfield', Str)
    s2 = st.fork()
    om = fresh('instance', M)
    st.assume(FA([f], Implies(FHAS(c)[f], Or(km[f] != V.absent, hasdef(c, f))), FHAS(c)[f]))
    st.assume(FA([f], Implies(km[f] != V.absent, FHAS(c)[f]), km[f]))
    st.assume(FA([f], om[f] == If(FHAS(c)[f], If(km[f] != V.absent, km[f], defv(c, f)), V.absent), om[f]))
    r = V.obj(c, om)
    rec = st.ghost.get(('built',))
    if rec is not None and rec[0].eq(c):
        st.assume(Implies(builtbody(c, rec[1], r), BUILT(t, V.dict(rec[1]), r)))
    st.assume(Implies(okobj(c, om), OK(t, r)))
    st.assume(SUBC(c, c))
    s2.assume(Or(And(km[bad] != V.absent, Not(FHAS(c)[bad])), And(FHAS(c)[bad], km[bad] == V.absent, Not(hasdef(c, bad)))))
    return [(st, r), (s2, Exc(bt('TypeError'), node=node))]


def install(t, ex):
    """The hooks that give reflection its meaning."""
    un = repo().ext_name('typing.Union')

    def ty_attr(ex, st, v, name):
        if name == '__origin__':
            return raising(ex, cases(ex, st, origin(v, NOATTR)))
        if name == '__args__':
            return raising(ex, cases(ex, st, tyargs(v, NOATTR)))
        if name == '__name__':
            nm = strfn('ty.name', Ty, Str)(v)
            st.assume(Implies(Ty.is_TData(v), nm == CNAME(Ty.tc(v))))
            return raising(ex, cases(ex, st, [(Or(isclass(v), Ty.is_TOther(v)), nm), (None, NOATTR)]))
        if name in ('__module__', '__qualname__'):
            return [(st, strfn('ty.' + name, Ty, Str)(v))]
        if name == '__dataclass_fields__':
            out = []
            for s, b in ex.split(st, Ty.is_TData(v)):
                if b:
                    out.append((s, fields_map(tcl(v))))
                else:
                    out += ex.raise_(s, 'AttributeError', None)
            return out
        return ex.raise_(st, 'AttributeError', None)
    ex.attrs['Ty'] = ty_attr

    def v_attr(ex, st, v, name):
        if name == '_fields':
            i = fresh('i', I)
            out = []
            for s, b in ex.split(st, V.is_nt(v)):
                out += [(s, Seq(u.klen(V.ntm(v)), SLeaf(Str), [z3.Lambda([i], u.kat(V.ntm(v), i))], 0, 'tuple'))] if b else ex.raise_(s, 'AttributeError', None)
            return out
        if name == '__class__':
            return [(st, Rec(Ext('class'), {'__name__': If(V.is_nt(v), V.ntname(v), If(V.is_obj(v), CNAME(V.cls(v)), strfn('typename', V, Str)(v))), '__of__': v}))]
        if name == '_asdict':
            return [(st, Lam('_asdict', lambda ex, s, a, k, n: [(s, ex.newdoc(s, V.dict(V.ntm(v))))] if ex.proves(s, V.is_nt(v)) else ex.raise_(s, 'AttributeError', n)))]
        if name == '__dataclass_fields__':
            out = []
            for s, b in ex.split(st, V.is_obj(v)):
                if b:
                    out.append((s, fields_map(V.cls(v))))
                else:
                    out += ex.raise_(s, 'AttributeError', None)
            return out
        if name == 'value':
            return cases(ex, st, [(V.is_enm(v), V.eval(v)), (None, None)]) if ex.proves(st, V.is_enm(v)) else None
        return None
    ex.attrs['V'] = v_attr

    def class_attr(ex, st, v, name):
        """Attributes of the class of a value."""
        of = v.attrs['__of__']
        return v_attr(ex, st, of, name) if name == '__dataclass_fields__' else ex.raise_(st, 'AttributeError', None)
    ex.ext['attr:class.*'] = class_attr

    def has(ex, st, v, name):
        if isz(v) and v.sort() == Ty and isinstance(name, str):
            out = []
            for s, r in ty_attr(ex, st, v, name):
                out.append((s, not isinstance(r, Exc)))
            return out
        return None
    ex.ext['hasattr'] = has

    def getattr_(ex, st, v, name, *dflt):
        v = ex.to_V(st, v) if isinstance(v, DocPtr) else v
        if isz(v) and v.sort() == V and isz(name) and name.sort() == Str:
            out = []
            for s, b in ex.split(st, And(V.is_obj(v), V.om(v)[name] != V.absent)):
                out += [(s, V.om(v)[name])] if b else [(s, dflt[0])] if dflt else ex.raise_(s, 'AttributeError', None)
            return out
        return None
    ex.ext['getattr'] = getattr_
    ex.ext['typing.get_origin'] = lambda ex, st, a, k, n: cases(ex, st, origin(a[0], None))
    ex.ext['typing.get_args'] = lambda ex, st, a, k, n: cases(ex, st, tyargs(a[0], Tup([])))
    ex.ext['inspect.isclass'] = lambda ex, st, a, k, n: [(st, Or(isclass(a[0]), And(Ty.is_TOther(a[0]), strfn('ty.isclass', Ty, B)(a[0]))))] if isz(a[0]) else [(st, True)]
    ex.ext['method.__len__'] = lambda ex, st, a, k, n: ex.ext['builtins.len'](ex, st, a, k, n)

    def isinst(ex, st, a, b):
        a = ex.deref(st, a)
        if isinstance(a, DocPtr):
            a = ex.to_V(st, a)
        if isz(b) and b.sort() == Ty and not (isz(a) and a.sort() == Ty):
            return [(st, instance_of(ex.to_V(st, a), b, fresh('isinst', B)))]
        nm = getattr(b, 'name', '')
        if nm in ('EnumMeta', 'enum.EnumMeta') and isz(a) and a.sort() == Ty:
            return [(st, Ty.is_TEnum(a))]
        if nm in ('Enum', 'enum.Enum') and isz(a) and a.sort() == V:
            return [(st, V.is_enm(a))]
        return None
    ex.ext['isinstance'] = isinst

    def is_dc(ex, st, a, k, n):
        x = ex.deref(st, a[0])
        if isz(x) and x.sort() == Ty:
            return [(st, Ty.is_TData(x))]
        return [(st, V.is_obj(ex.to_V(st, x)))]
    ex.ext['dataclasses.is_dataclass'] = is_dc
    ex.ext['const:dataclasses.MISSING'] = MISSING
    for m in (S, H, 'hyperstate.schema.types'):
        ex.ext[f'global:{m}:MISSING'] = MISSING
    ex.ext['to_V'] = lambda ex, st, x: DVAL(x) if isz(x) and x.sort() == Dflt else None
    ex.ext['call:Dflt'] = lambda ex, st, f, a, k, n: [(st, DVAL(f))]

    def call_ty(ex, st, f, args, kwargs, node):
        out = []
        for s, b in ex.split(st, Ty.is_TData(f)):
            if b:
                out += construct(ex, s, f, kwroot(ex, s, args, kwargs), node)
                continue
            for s2, b2 in ex.split(s, Ty.is_TEnum(f)):
                if not b2:
                    raise Unsupported('call of a type that is neither a dataclass nor an enum')
                x = ex.to_V(s2, args[0])
                mv = fresh('member', V)
                s3 = s2.fork()
                s2.assume(And(EHAS(Ty.te(f))[mv], pyeq(mv, x)))
                s3.assume(FA([mv], Implies(EHAS(Ty.te(f))[mv], Not(pyeq(mv, x))), EHAS(Ty.te(f))[mv]))
                out += [(s2, V.enm(Ty.te(f), mv)), (s3, Exc(bt('ValueError'), node=node))]
        return out
    ex.ext['call:Ty'] = call_ty

    def eq(ex, st, a, b):
        if isinstance(a, Tup) and not a.items:
            a, b = b, a
        if isinstance(b, Tup) and not b.items:
            x = ex.deref(st, a)
            x = ex.to_V(st, x) if isinstance(x, DocPtr) else x
            if isz(x) and x.sort() == V:
                return [(st, Or(And(V.is_tup(x), V.tn(x) == 0), bare(x)))]
        return None
    ex.ext['eq'] = eq
    ex.contracts[f'{S}:isnamedtupleinstance'] = lambda ex, st, fn, a, k, n: [(st, V.is_nt(ex.to_V(st, a[0] if a else k['x'])))]
    t.trust('isnamedtupleinstance(x) tells whether x is a named tuple')

    def namedtuple(ex, st, args, kw, node):
        nm = ex.unwrap(st, args[0])

        def make(ex, s, a, k, n):
            nmv = ex.to_V(s, nm)
            if ex.proves(s, V.is_str(nmv)):
                return [(s, V.nt(V.s(nmv), kwroot(ex, s, a, k)))]
            s2 = s.fork()
            s.assume(V.is_str(nmv))
            return [(s, V.nt(V.s(nmv), kwroot(ex, s, a, k))), (s2, Exc(bt('TypeError'), node=n))]
        s2 = st.fork()
        return [(st, Lam('namedtuple', make)), (s2, Exc(bt('ValueError'), node=node))]
    ex.ext['collections.namedtuple'] = namedtuple

    def replace(ex, st, args, kw, node):
        d = ex.to_V(st, args[0])
        km = kwroot(ex, st, args[1:], kw)
        f = fresh('f', Str)
        om = fresh('replaced', M)
        c = V.cls(d)
        st.assume(FA([f], om[f] == If(And(FHAS(c)[f], km[f] != V.absent), km[f], V.om(d)[f]), om[f]))
        return [(st, V.obj(c, om))]
    ex.ext['dataclasses.replace'] = replace
    ex.ext['typeof'] = lambda ex, st, x: [(st, Rec(Ext('class'), {'__name__': fresh('typename', Str)}))] if isz(x) and x.sort() == V else None

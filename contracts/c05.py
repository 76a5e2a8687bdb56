"""C05: overrides set exactly the fields they name."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool
from pydv.loops import UNB
from contracts import schema, wiring
from contracts.schema import Sc, WALK, found, STYPE, SDEF
from contracts.docpath import FA, isd, dicts, unweak, put_unfold, get_unfold, WEAKD, NEWD, Lemmas
from contracts import docpath
from z3 import And, Or, Not, Implies, If, IntVal, Function

H, SD = 'hyperstate.hyperstate', 'hyperstate.serde'
I, B = z3.IntSort(), z3.BoolSort()
WK = lit('!weak ref')
# what the text of an override is made of
EQS, DOT = lit('='), lit('.')
HASEQ = lambda o: u.strfn('substr', Str, Str, B)(EQS, o)
PARTS = lambda o: u.strfn('str.split:1.a', Str, Str, u.SA)(o, EQS)
KEY, TXT = lambda o: PARTS(o)[0], lambda o: PARTS(o)[1]
PN, PA = lambda k: u.strfn('str.split.n', Str, Str, I)(k, DOT), lambda k: u.strfn('str.split.a', Str, Str, u.SA)(k, DOT)
RON = Function('parsed', Str, V)
RWR, ASD = Function('replace_weak_refs', V, V, V), Function('asdict', V, V)
FOLD, EX = Function('after', I, V), Function('opened', I, I, V)      # the document after i overrides; and after opening j steps for the next
YES, NO = ['True', 'true', '1', 't', 'T'], ['False', 'false', '0', 'f', 'F']


def start(x, dflt):
    """What a value on the way to the field becomes, so that the field can be set in it."""
    weak = If(V.is_obj(dflt), ASD(RWR(dflt, If(x == V.absent, WEAKD, x))), If(x == V.absent, V.dict(Store_(EMPTY_M, WK)), unweak(x)))
    return If(V.is_none(x), NEWD, If(V.is_nt(x), V.dict(V.ntm(x)), weak))


def stays(x):
    return Not(Or(x == V.absent, V.is_none(x), V.is_nt(x), And(isd(x), V.m(x)[WK] != V.absent)))


def Store_(m, k):
    return z3.Store(m, k, V.absent)


def prim(ty, n):
    return And(Sc.is_Primitive(ty), Sc.pname(ty) == lit(n))


def among(s, xs):
    return Or([s == lit(x) for x in xs])


def value_of(ty, s):
    return If(prim(ty, 'str'), V.str(s), If(prim(ty, 'bool'), V.bool(among(s, YES)), RON(s)))


def badbool(ty, s):
    return And(prim(ty, 'bool'), Not(among(s, YES + NO)))


def find_field(t):
    schema.find_field(t)


def deserialize(t):
    ex = t.engine(axioms=docpath.defs() + schema.axioms() + schema.walk_axioms())
    ex.merge = ex.joins = t.prover.noext = True
    st = St()
    schema.install(t, ex)
    st.assume(schema.lost(None))
    N, O = fresh('n', I), fresh('overrides', SA)
    clz = z3.Const('clz', z3.DeclareSort('ClsT'))
    S = z3.Const('schema', Sc)
    d = fresh('document', V)
    st.assume(N >= 0, isd(d))
    ex.attrs['ClsT'] = lambda ex, st, v, name: [(st, fresh('name', Str))] if name == '__name__' else None
    applied = fresh('applied', B)
    self_ = ex.alloc(st, HObj(wiring.cls_of('OverridesDeserializer'), {'overrides': Seq(N, SLeaf(Str), [O], 0, 'list'), 'applied_overrides': applied}))
    doc = ex.newdoc(st, d)

    # each override by itself
    key = lambda k: KEY(O[k])
    P, n = lambda k: PA(key(k)), lambda k: PN(key(k))
    ok = lambda k: found(S, P(k), n(k))[0]
    leaf = lambda k: STYPE(found(S, P(k), n(k))[1])[P(k)[n(k) - 1]]
    val = lambda k: value_of(leaf(k), TXT(O[k]))
    dflt = lambda k, j: SDEF(found(S, P(k), j + 1)[1])[P(k)[j]]
    good = lambda k: And(HASEQ(O[k]), ok(k), Not(badbool(leaf(k), TXT(O[k]))))
    k, j = z3.Ints('k j')
    st.assume(FOLD(0) == d)
    st.assume(FA([k], Implies(0 <= k, EX(k, 0) == FOLD(k)), EX(k, 0)))
    st.assume(FA([k], Implies(And(0 <= k, k < N), And(EX(k, 0) == FOLD(k), n(k) >= 1)), (FOLD(k), O[k])))
    st.assume(FA([k, j], Implies(And(0 <= k, 0 <= j), EX(k, j + 1) == If(stays(getp(EX(k, j), P(k), j + 1)), EX(k, j), putp(EX(k, j), P(k), j + 1, start(getp(EX(k, j), P(k), j + 1), dflt(k, j))))), (EX(k, j), P(k)[j])))
    st.assume(FA([k], Implies(And(0 <= k, k < N), FOLD(k + 1) == putp(EX(k, n(k) - 1), P(k), n(k), val(k))), (FOLD(k), O[k])))

    # the parts
    def materialize(ex, st, fn, a, kw, node):
        c = a[0] if a else kw['clz']
        ex.oblige(st, 'looks fields up in the schema of the class', z3.BoolVal(isz(c) and c.eq(clz)))
        return [(st, S)]
    ex.contracts['hyperstate.schema.types:materialize_type'] = materialize

    def find(ex, st, fn, a, kw, node):
        out = []
        for s, e in ex.bind_args(st, fn, a, kw, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            sch, path = [e[x] for x in list(e)[:2]]
            q = ex.to_seq(s, path)
            if not (isinstance(q.off, int) and q.off == 0):
                raise Unsupported('path of an unexpected form')
            f, i = found(sch, q.leaves[0], toz(q.n))
            kk = z3.simplify(q.leaves[0][toz(q.n) - 1])
            out.append((s, Maybe(Not(f), schema.fields(i).at(kk))))
        return out
    ex.contracts['hyperstate.schema.types:Struct.find_field'] = find
    meth = ex.attrs['Sc']

    def attr(ex, st, v, name):
        if name == 'find_field':
            fn = repo().get('hyperstate.schema.types:Struct.find_field')
            return [(st, Lam(name, lambda ex, s, a, kw, nd: find(ex, s, fn, [v] + list(a), kw, nd)))]
        return meth(ex, st, v, name)
    ex.attrs['Sc'] = attr

    def ron(ex, st, a, kw, node):
        s2 = st.fork()
        x = toStr(ex.unwrap(st, a[0]))
        return [(st, RON(x)), (s2, Exc(bt('ValueError'), node=node, attrs={'by': 'parser'}))]
    ex.ext['pyron.loads'] = ron
    r_, s_ = z3.Const('r', V), z3.Const('s', Str)
    st.assume(FA([s_], And(RON(s_) != V.absent, Not(V.is_obj(RON(s_)))), RON(s_)), FA([r_], isd(ASD(r_)), ASD(r_)))
    ex.contracts[f'{SD}:isnamedtupleinstance'] = lambda ex, st, fn, a, kw, nd: [(st, V.is_nt(ex.to_V(st, a[0] if a else kw['x'])))]
    ex.attrs['V'] = lambda ex, st, v, name: [(st, Lam('_asdict', lambda ex, s, a, kw, nd: [(s, ex.newdoc(s, V.dict(V.ntm(v))))]))] if name == '_asdict' else None
    ex.ext['dataclasses.is_dataclass'] = lambda ex, st, a, kw, nd: [(st, V.is_obj(ex.to_V(st, a[0])))]

    def rwr(ex, st, fn, a, kw, node):
        out = []
        for s, e in ex.bind_args(st, fn, a, kw, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            x = list(e)
            s2 = s.fork()
            w = ex.to_V(s, e[x[1]])
            s.assume(isd(w))
            out += [(s, RWR(ex.to_V(s, e[x[0]]), w)), (s2, Exc(bt('TypeError'), node=node, attrs={'by': 'values'}))]
        return out
    ex.contracts[f'{SD}:_replace_weak_refs'] = rwr

    def asd(ex, st, fn, a, kw, node):
        out = []
        for s, e in ex.bind_args(st, fn, a, kw, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            x = list(e)
            ss = e.get('serializers')
            ex.oblige(s, 'defaults keep their versions', z3.BoolVal(ss is not None and [wiring.isa(s, y, 'VersionedSerializer') for y in wiring.items(ex, s, ss)] == [True]))
            out.append((s, ex.newdoc(s, ASD(ex.to_V(s, e[x[0]])))))
        return out
    ex.contracts[f'{SD}:asdict'] = asd
    t.assumed |= {f'{SD}:asdict', f'{SD}:_replace_weak_refs', f'{SD}:isnamedtupleinstance', 'hyperstate.schema.types:materialize_type', 'hyperstate.schema.types:Struct.find_field'}


    def cands(loop):
        e = loop.elem(St(), z3.Const('probe', I)) if loop.isfor else None
        lists = [a for a, c in loop.cells.items() if c[0] == 'seq']
        docs = [a for a, c in loop.cells.items() if c[0] == 'doc']
        ints = [nm for nm, x in loop.env0.items() if isz(x) and x.sort() == I]
        if isz(e) and e.sort() == Str and z3.is_select(e) and e.arg(0).eq(O):
            kk = fresh('k', I)
            yield 'overrides seen have a value', lambda v: FA([kk], Implies(And(0 <= kk, kk < v.i), HASEQ(O[kk])), O[kk])
            for l in lists + [None]:
                none = lambda v, l=l: z3.BoolVal(True) if l is None else toz(v.cell(l).n) == 0
                yield 'overrides seen name fields', lambda v, none=none: Implies(none(v), FA([kk], Implies(And(0 <= kk, kk < v.i), good(kk)), O[kk]))
                if l is not None:
                    yield 'an error for a missing field', lambda v, none=none: Implies(Not(none(v)), z3.Exists([kk], And(0 <= kk, kk < v.i, Not(ok(kk)))))
                for a in docs:
                    yield 'overrides applied so far', lambda v, none=none, a=a: Implies(none(v), v.root(a) == FOLD(v.i))
                    yield 'a struct', lambda v, a=a: isd(v.root(a))
        else:
            for a in docs:
                for q in self_its(loop):
                    yield 'structs opened so far', lambda v, a=a, q=q: Implies(v.entry.root(a) == FOLD(q), v.root(a) == EX(q, v.i))
                    yield 'only structs on the way', lambda v, a=a, q=q: dicts(v.root(a), P(q), v.i + 1)

    def self_its(loop):
        """Positions of the override at hand: k with O[k] among what is known."""
        out = []
        for nm, x in loop.env0.items():
            if isz(x) and x.sort() == Str and z3.is_select(x) and x.arg(0).eq(O):
                if not any(y.eq(x.arg(1)) for y in out):
                    out.append(x.arg(1))
        return out
    ex.loops['*'] = cands

    def ensures(s, r):
        r = ex.deref(s, r)
        if not (isinstance(r, Tup) and len(r.items) == 3):
            return [('returns a value and two flags', z3.BoolVal(False))]
        v, ok_, ret = r.items
        ok_, ret = tobool(ex.truth(s, ok_)), tobool(ex.truth(s, ret))
        kk = fresh('k', I)
        now = tobool(ex.truth(s, s.heap[self_.a].attrs['applied_overrides']))
        return [('lets the other steps of loading go on', Not(ret)),
                ('applies the overrides once', And(now, ok_ == Not(applied))),
                ('accepts only overrides that name a field and give a value', Implies(And(Not(applied), 0 <= kk, kk < N), good(kk))),
                ('sets the fields named, in order, and nothing else', Implies(Not(applied), ex.to_V(s, v) == FOLD(N)))]

    def raises(s, x):
        kk = fresh('k', I)
        if x.attrs.get('by'):
            return []
        if x.cls.name in ('FieldNotFoundError', 'FieldsNotFoundError'):
            return [('finds fault only with names of no field', z3.Exists([kk], And(0 <= kk, kk < N, Not(ok(kk)))))]
        if x.cls.name == 'ValueError':
            return [('finds fault only with overrides that have no value', z3.Exists([kk], And(0 <= kk, kk < N, Or(Not(HASEQ(O[kk])), badbool(leaf(kk), TXT(O[kk]))))))]
        return []
    t.check_fn(ex, st, f'{H}:OverridesDeserializer.deserialize', [self_, clz, doc, fresh('path', Str)], ensures, raises)




def loading(t):
    wiring.typed_load(t, {'overrides'})


def loading_config(t):
    wiring.load_config(t, {'overrides'})


TASKS = ['find_field', 'deserialize', 'loading', 'loading_config']
TECHNIQUE = 'contracts on Struct.find_field, OverridesDeserializer.deserialize and the wiring of overrides into loading'
NOTE = ('For any list of overrides and any document: the result is the document after setting each named field in order, opening (and only opening) the structs on the way; '
        'no override is accepted that has no "=", names no field or gives a bool field another text; text of string fields is verbatim; the exceptions raised are justified. '
        'Overrides run on the upgraded document (wiring). Assumed: materialize_type describes the class, pyron.loads, asdict and _replace_weak_refs (contracted in C04) '
        'for the default values a weakly given struct starts from; that the value then set is of the field\'s type is C03\'s.')

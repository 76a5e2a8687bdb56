"""What asdict makes of a value, from_dict turns back into that value (C01), also when defaults are left out (C02)."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool
from pydv.loops import UNB
from contracts.annot import *
from contracts import annot, fromdict
from contracts.fromdict import Env, KINDS, is_kind, LASTD, IG
from z3 import And, Or, Not, Implies, If, IntVal, Store, Select, Function

VERSION = lit('version')
VERS = Function('versioned', Cls, B)
VNUM = Function('version.of', Cls, V)
RTP = Function('document.of', Ty, V, V, B)           # d is what loading reads where a v of type t was saved
EQV = Function('equal', V, V, B)                     # equal as Python values, component by component
PY = Function('reads.back', V, V, B)                 # d is what the RON library reads where s was written
HPRE, HPOST = Function('handed.with.version', V, B), Function('handed', V, B)
VERSD = Function('versioned.deserializer', Deser, B)


def eqbody(a, b, eq=None):
    eq = EQV if eq is None else eq
    i, f = fresh('i', I), fresh('f', Str)
    return Or(And(Not(is_cont(a)), Not(is_cont(b)), pyeq(a, b)),
              And(V.is_lst(a), V.is_lst(b), V.ln(a) == V.ln(b), FA([i], Implies(And(0 <= i, i < V.ln(a)), eq(V.la(a)[i], V.la(b)[i])), V.la(a)[i])),
              And(V.is_tup(a), V.is_tup(b), V.tn(a) == V.tn(b), FA([i], Implies(And(0 <= i, i < V.tn(a)), eq(V.ta(a)[i], V.ta(b)[i])), V.ta(a)[i])),
              And(V.is_dict(a), V.is_dict(b), FA([f], And((V.m(a)[f] == V.absent) == (V.m(b)[f] == V.absent), Implies(V.m(a)[f] != V.absent, eq(V.m(a)[f], V.m(b)[f]))), V.m(a)[f])),
              And(V.is_obj(a), V.is_obj(b), V.cls(a) == V.cls(b), FA([f], Implies(FHAS(V.cls(a))[f], eq(V.om(a)[f], V.om(b)[f])), V.om(a)[f])))


def rtbody(t, v, d, pre, opt=True, rt=None, kind=None):
    """One level of RTP; with `pre`, versioned structs still hold their version."""
    rt = RTP if rt is None else rt
    i, j, f, k = fresh('i', I), fresh('j', I), fresh('f', Str), fresh('k', Str)
    c = Ty.tc(t)
    x = V.m(d)[f]
    keys = Or(FHAS(c)[k], k == NAME, *([And(k == VERSION, VERS(c))] if pre else []))
    cases = [And(okprim(t, v), d == v),
             And(Ty.is_TList(t), V.is_lst(v), V.is_lst(d), V.ln(v) == V.ln(d), FA([i], Implies(And(0 <= i, i < V.ln(v)), rt(Ty.tl(t), V.la(v)[i], V.la(d)[i])), V.la(d)[i])),
             And(Ty.is_TTup(t), V.is_tup(v), V.is_tup(d), V.tn(v) == V.tn(d), V.tn(v) == Ty.ttn(t),
                 FA([i], Implies(And(0 <= i, i < V.tn(v)), rt(Ty.tta(t)[i], V.ta(v)[i], V.ta(d)[i])), V.ta(d)[i])),
             And(Ty.is_TDict(t), V.is_dict(v), V.is_dict(d), FA([f], And((V.m(v)[f] == V.absent) == (x == V.absent), Implies(x != V.absent, rt(Ty.tv(t), V.m(v)[f], x))), x)),
             And(Ty.is_TUnion(t), V.is_obj(v), V.is_dict(d), V.m(d)[NAME] == V.str(CNAME(V.cls(v))),
                 z3.Exists([i], And(0 <= i, i < Ty.tun(t), Ty.is_TData(Ty.tua(t)[i]), Ty.tc(Ty.tua(t)[i]) == V.cls(v), rt(Ty.tua(t)[i], v, d)))),
             And(Ty.is_TData(t), V.is_obj(v), V.cls(v) == c, V.is_dict(d), Implies(VERS(c), Not(FHAS(c)[VERSION])), Not(FHAS(c)[NAME]),
                 FA([f], Implies(And(FHAS(c)[f]), If(x == V.absent, And(hasdef(c, f), EQV(defv(c, f), V.om(v)[f])), And(Not(weakly(x)), rt(FTYA(c)[f], V.om(v)[f], x)))), x, FHAS(c)[f]),
                 FA([k], Implies(V.m(d)[k] != V.absent, keys), V.m(d)[k]), *([Implies(VERS(c), V.m(d)[VERSION] == VNUM(c))] if pre else [])),
             And(Ty.is_TEnum(t), V.is_enm(v), V.ecls(v) == Ty.te(t), EHAS(Ty.te(t))[V.eval(v)], d == V.eval(v)),
             And(Ty.is_TLit(t), Not(is_cont(v)), z3.Exists([i], And(0 <= i, i < Ty.tln(t), pyeq(Ty.tla(t)[i], v))), d == v)]
    if kind is not None:
        return cases[['basic', 'list', 'tuple', 'dict', 'union', 'data', 'enum', 'literal'].index(kind)]
    if opt:
        cases.append(And(Ty.is_TOpt(t), If(V.is_none(v), V.is_none(d), And(Not(V.is_none(d)), rtbody(Ty.to(t), v, d, pre, False, rt)))))
    return Or(cases)


def facts():
    t, v, w, d = z3.Const('t', Ty), z3.Const('v', V), z3.Const('w', V), z3.Const('d', V)
    a, b, c = z3.Const('a', V), z3.Const('b', V), z3.Const('c', Cls)
    return [FA([c, a, b], Implies(And(EHAS(c)[a], EHAS(c)[b], pyeq(a, b)), a == b), (EHAS(c)[a], EHAS(c)[b], pyeq(a, b))),
            FA([t, v, d], Implies(RTP(t, v, d), And(v != V.absent, d != V.absent)), RTP(t, v, d)),
            FA([a], pyeq(a, a), pyeq(a, a))]


class Round(Env):
    """from_dict on a document that a value was saved as."""

    def __init__(self, t, self_qual):
        Env.__init__(self, t, 'used', self_qual)
        ty, v, d, r = z3.Const('t', Ty), z3.Const('v', V), z3.Const('d', V), z3.Const('r', V)
        # by induction over documents: parts that were saved load as what they were
        t.prover.axioms += facts() + [FA([ty, v, d, r], Implies(And(RTP(ty, v, d), USED(ty, d, r)), EQV(r, v)), (RTP(ty, v, d), USED(ty, d, r)))]

    why = None

    def fails(self, s, node):
        s2 = s.fork()
        if self.why is not None:
            s2.assume(self.why)
        return (s2, Exc(bt('TypeError'), node=node, attrs={'by': 'child'}))

    def from_dict(self, ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            x = fresh('x', V)
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            d = ex.to_V(s, e['value'])
            self.why = FA([x], Not(RTP(e['clz'], x, d)), RTP(e['clz'], x, d)) if isz(e['clz']) else None
            out += Env.from_dict(self, ex, s, fn, [e[k] for k in e], {}, node)
            self.why = None
        return out

    def tcd(self, ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            k = list(e)
            rem, weak, f = self.remaining(s, e[k[2]]), V.m(ex.to_V(s, e[k[4]])), fresh('missing', Str)
            self.why = And(rem[f], Or(weak[f] != V.absent, Not(hasdef(tcl(e[k[0]]), f))))
            out += Env.tcd(self, ex, s, fn, [e[x] for x in k], {}, node)
            self.why = None
        return out

    def deser(self, ex, st, v, name):
        if name != 'deserialize':
            return None

        def f(ex, st, a, k, n):
            e = dict(zip(['clz', 'value', 'path'], a), **{('clz' if x == 'cls' else x): y for x, y in k.items()})
            val, ok = fresh('handed', V), fresh('ok', B)
            h = st.ghost['handed']
            h2 = If(ok, val, h)
            ex.oblige(st, 'deserializers see the value as it is by now', ex.to_V(st, e['value']) == h)
            ex.oblige(st, 'deserializers are told the type', e['clz'] == self.T1)
            st.assume(Implies(HPRE(h), HPRE(h2)), Implies(Or(HPOST(h), And(HPRE(h), VERSD(v))), HPOST(h2)), PURE(val), plain(val))
            st.ghost = dict(st.ghost, handed=h2)
            return [(st, Tup([val, ok, False]))]
        return [(st, Lam('deserialize', f))]

    def loops(self, loop):
        yield from Env.loops(self, loop)
        if 'handed' in loop.ghosts:
            H = lambda v: v.st.ghost['handed']
            yield 'handed over the document', lambda v: HPRE(H(v))
            yield 'handed over as a document', lambda v: And(PURE(H(v)), plain(H(v)))
            yield 'handed over without a version', lambda v: Implies(Or(HPOST(self.v0), v.i > self.p), HPOST(H(v)))
            for nm in loop.vars:
                yield f'{nm}: not final', lambda v, nm=nm: None if v.get(nm) is UNB or not (isinstance(v.get(nm), bool) or isz(v.get(nm)) and v.get(nm).sort() == B) else Not(tobool(v.get(nm)))
        if loop.isfor:
            el = loop.elem(St(), z3.Const('probe', I))
            if isz(el) and el.sort() == Ty:
                q = fresh('q', I)

                def passed(v):
                    x = loop.elem(St(), q)
                    nm = If(True, V.m(v.st.ghost['handed'])[NAME], V.none)
                    return FA([q], Implies(And(0 <= q, q < v.i), nm != V.str(CNAME(Ty.tc(x)))), x)
                yield 'names seen differ', passed


def from_dict(t, kind, opt=None, nods=None):
    E = Round(t, {f'{S}:from_dict'})
    ex, st = E.ex, E.st
    T, v, d, path = z3.Const('T', Ty), z3.Const('value', V), z3.Const('doc', V), fresh('fpath', Str)
    st.assume(wellformed(T), PURE(d), plain(d))
    st.ghost['handed'] = d
    E.T1 = T1 = If(Ty.is_TOpt(T), Ty.to(T), T)
    E.fields_of = Ty.tc(E.T1)
    E.p, E.v0 = fresh('p', I), d
    st.assume(is_kind(T1, kind))
    if opt is not None:
        st.assume(Ty.is_TOpt(T) == opt, E.nods == nods)
    st.assume(Implies(Ty.is_TOpt(T), wellformed(Ty.to(T))))
    if kind == 'union':
        a, b = z3.Ints('a b')
        ua = Ty.tua(T1)
        st.assume(FA([a], Implies(And(0 <= a, a < Ty.tun(T1)), Ty.is_TData(ua[a])), ua[a]))
        st.assume(FA([a, b], Implies(And(0 <= a, a < Ty.tun(T1), 0 <= b, b < Ty.tun(T1), CNAME(Ty.tc(ua[a])) == CNAME(Ty.tc(ua[b]))), a == b), (ua[a], ua[b])))
    c = Ty.tc(T1)
    versioned = And(Ty.is_TData(T1), VERS(c))
    given0 = (If(And(Ty.is_TOpt(T), V.is_none(v)), V.is_none(d), And(rtbody(T1, v, d, True, False, kind=kind), Implies(Ty.is_TOpt(T), Not(V.is_none(d))), HPRE(d))))
    st.assume(given0)
    h = z3.Const('h', V)
    saved = FA([h], Implies(HPOST(h), rtbody(T1, v, h, False, False, kind=kind)), HPOST(h))
    st.assume(saved)
    st.assume(Implies(Not(versioned), HPOST(d) == HPRE(d)), Implies(versioned, And(Not(E.nods), 0 <= E.p, E.p < E.nds, VERSD(E.dsa[E.p]))))

    def ensures(s, r):
        rv = ex.to_V(s, r)
        if kind == 'data':
            g = fresh('g', Str)
            none = And(Ty.is_TOpt(T), V.is_none(v))
            x = V.m(s.ghost['handed'])[g]
            field = frel(c, g, x, V.om(rv)[g])
            here = And(Not(none), FHAS(c)[g])
            return [('loads every field', Implies(And(here, g != NAME, V.is_obj(rv), V.is_dict(s.ghost['handed']), Not(weakly(x))), field), [saved, given0]),
                    ('fields are none of the names the library keeps to itself', Implies(here, And(g != NAME, V.is_dict(s.ghost['handed']), Not(weakly(x))))),
                    ('gives back none for none', Implies(none, V.is_none(rv))),
                    ('gives back an instance of the class', Implies(Not(none), And(V.is_obj(rv), V.cls(rv) == V.cls(v)))),
                    ('gives back the fields that were saved', Implies(And(here, field), EQV(V.om(rv)[g], V.om(v)[g])))]
        return [('gives back the value that was saved', Or(EQV(rv, v), eqbody(rv, v)))]
    t.trust('the classes in a Union are dataclasses with different names')
    t.check_fn(ex, st, f'{S}:from_dict', [T, d, Maybe(E.nods, E.ds), path, IG], ensures, lambda s, x: [('documents of saved values are not refused', FALSE)])


def reads(into):
    names = []
    for k in KINDS:
        if k == 'other':
            continue
        for i, p in enumerate(fromdict.PARTS[k]):
            nm = 'reads_' + k + (str(i + 1) if p else '')
            into[nm] = lambda t, k=k, p=p: from_dict(t, k, *p)
            names.append(nm)
    return names


def try_create_defaults(t):
    """Nothing is missing and nothing is replaced when every remaining field has a default and no value is weakly given."""
    E = Round(t, {f'{S}:_try_create_defaults'})
    ex, st = E.ex, E.st
    c = z3.Const('c', Cls)
    w, K0, rem = fresh('weak', M), fresh('kwargs', M), fresh('remaining', z3.ArraySort(Str, B))
    f = fresh('f', Str)
    st.assume(FA([f], Implies(rem[f], And(FHAS(c)[f], K0[f] == V.absent)), rem[f]), E.pure_map(V.dict(w)))
    st.assume(FA([f], Implies(rem[f], And(w[f] == V.absent, hasdef(c, f))), rem[f]))
    E.rem = (c, rem, w, K0)
    old = E.loops

    def loops(loop):
        yield from old(loop)
        if loop.isfor:
            for l in [a for a, cc in loop.cells.items() if cc[0] == 'seq']:
                yield 'nothing is missing', lambda v, l=l: toz(v.cell(l).n) == 0
    ex.loops['*'] = loops
    kw = ex.newdoc(st, V.dict(K0))
    wk = ex.newdoc(st, V.dict(w))

    def ensures(s, r):
        K1 = V.m(ex.to_V(s, kw))
        g = fresh('g', Str)
        return [('leaves fields with defaults to the constructor', K1[g] == K0[g])]
    t.check_fn(ex, st, f'{S}:_try_create_defaults', [Ty.TData(c), kw, SetVal(rem), fresh('fpath', Str), wk, Maybe(E.nods, E.ds), IG], ensures,
               lambda s, x: [('finds nothing missing', FALSE)])


# ---- asdict ---------------------------------------------------------------------------------------------------
Srl = z3.DeclareSort('Srl')
VERSS = Function('versioned.serializer', Srl, B)
SERF = Function('serialized', V, V)


def elided(c, f, x):
    """Field f may be left out of a dump in which it would read x."""
    return And(hasdef(c, f), pyeq(x, defv(c, f)))


def modified(c, old, new):
    """What serializers may do to the fields of a dumped struct."""
    k = fresh('k', Str)
    return FA([k], If(FHAS(c)[k], Or(new[k] == old[k], And(new[k] == V.absent, old[k] != V.absent, elided(c, k, old[k]))),
                      Or(new[k] == old[k], And(k == VERSION, VERS(c), new[k] == VNUM(c)))), new[k])


def serbody(v, s, versions=None):
    i, f = fresh('i', I), fresh('f', Str)
    c, m = V.cls(v), V.ntm(s)
    return Or(And(V.is_obj(v), V.is_nt(s), V.ntname(s) == CNAME(c),
                  FA([f], If(FHAS(c)[f], Or(m[f] == SERF(V.om(v)[f]), And(m[f] == V.absent, elided(c, f, SERF(V.om(v)[f])))),
                             Or(m[f] == V.absent, And(f == VERSION, VERS(c), m[f] == VNUM(c)))), m[f], FHAS(c)[f]),
                  *([] if versions is None else [Implies(And(versions, VERS(c), Not(FHAS(c)[VERSION])), m[VERSION] == VNUM(c))])),
              And(V.is_dict(v), V.is_dict(s), FA([f], V.m(s)[f] == If(V.m(v)[f] == V.absent, V.absent, SERF(V.m(v)[f])), V.m(s)[f])),
              And(V.is_lst(v), V.is_lst(s), V.ln(v) == V.ln(s), FA([i], Implies(And(0 <= i, i < V.ln(v)), V.la(s)[i] == SERF(V.la(v)[i])), V.la(s)[i])),
              And(V.is_tup(v), V.is_tup(s), V.tn(v) == V.tn(s), FA([i], Implies(And(0 <= i, i < V.tn(v)), V.ta(s)[i] == SERF(V.ta(v)[i])), V.ta(s)[i])),
              And(V.is_enm(v), s == V.eval(v)),
              And(Not(is_cont(v)), Not(V.is_enm(v)), s == v))


VKINDS = {'objects': ['obj'], 'dicts': ['dict'], 'lists': ['lst'], 'tuples': ['tup'], 'rest': ['none', 'bool', 'int', 'flt', 'str', 'enm']}


def asdict(t, kind):
    ex = t.engine(axioms=fields_axioms())
    ex.merge = t.prover.noext = True
    st = St()
    install(t, ex)
    v, x = z3.Const('value', V), z3.Const('x', V)
    st.assume(Or([getattr(V, 'is_' + k)(v) for k in VKINDS[kind]]), Implies(V.is_lst(v), V.ln(v) >= 0), Implies(V.is_tup(v), V.tn(v) >= 0))
    f = fresh('f', Str)
    c = V.cls(v)
    st.assume(Implies(V.is_obj(v), FA([f], Implies(FHAS(c)[f], V.om(v)[f] != V.absent), FHAS(c)[f])))
    i = fresh('i', I)
    st.assume(Implies(V.is_lst(v), FA([i], Implies(And(0 <= i, i < V.ln(v)), V.la(v)[i] != V.absent), V.la(v)[i])))
    st.assume(Implies(V.is_tup(v), FA([i], Implies(And(0 <= i, i < V.tn(v)), V.ta(v)[i] != V.absent), V.ta(v)[i])))
    st.assume(FA([x], Implies(x != V.absent, SERF(x) != V.absent), SERF(x)))
    noss, n, sa = fresh('noserializers', B), fresh('n', I), fresh('serializers', ArraySort(I, Srl))
    ss = Maybe(noss, Seq(n, SLeaf(Srl), [sa], 0, 'list'))
    p = fresh('p', I)
    has = And(Not(noss), 0 <= p, p < n, VERSS(sa[p]))
    st.assume(n >= 0)

    def rec(ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            d = e['serializers']
            if isinstance(d, Maybe):
                g = And(z3.BoolVal(isinstance(d.val, Seq) and d.val.leaves[0].eq(sa)), d.isnone == noss)
            elif isinstance(d, Seq):
                g = And(z3.BoolVal(d.leaves[0].eq(sa)), Not(noss))
            else:
                d = ex.deref(s, d)
                g = And(z3.BoolVal(d is None or isinstance(d, Ref) and isinstance(s.heap[d.a], HList) and not s.heap[d.a].items), noss)
            ex.oblige(s, 'passes on the serializers', g)
            ex.oblige(s, 'passes on that structs keep their names', tobool(ex.truth(s, e['named_tuples'])))
            w = ex.to_V(s, e['value'])
            ex.oblige(s, 'goes on to a component', w != V.absent)
            out.append((s, SERF(w)))
        return out
    ex.contracts[f'{S}:asdict'] = rec

    def srl(ex, st, v_, name):
        if name == 'serialize':
            return [(st, Lam(name, lambda ex, s, a, k, nd: [(s, Tup([fresh('given', V), False]))]))]
        if name == 'modify_dataclass_attrs':
            def f(ex, st, a, k, nd):
                e = dict(zip(['value', 'attrs', 'path'], a), **k)
                ex.oblige(st, 'serializers are shown the object', ex.to_V(st, e['value']) == v)
                d = ex.doc_norm(st, ex.deref(st, e['attrs'])) if isinstance(ex.deref(st, e['attrs']), DocPtr) else None
                ad = e['attrs'].a if isinstance(e['attrs'], Ref) else d.a
                old, new = V.m(ex.to_V(st, e['attrs'])), fresh('attrs', M)
                st.assume(modified(c, old, new), Implies(And(VERSS(v_), VERS(c), Not(FHAS(c)[VERSION])), new[VERSION] == VNUM(c)))
                st.heap[ad] = HDoc(V.dict(new))
                st.muts[ad] = st.muts.get(ad, ()) + (('*', None),)
                return [(st, None)]
            return [(st, Lam(name, f))]
        return None
    ex.attrs['Srl'] = srl
    ex.keymaps = lambda keys: fields_map(keys.arg(0)) if keys.decl().eq(FKEYS) else None

    def cands(loop):
        for a in [a for a, cc in loop.cells.items() if cc[0] == 'doc']:
            old, new = lambda q, a=a: V.m(q.entry.root(a)), lambda q, a=a: V.m(q.root(a))
            yield 'a struct', lambda q, a=a: V.is_dict(q.root(a))
            yield 'fields stay or are left out', lambda q, o=old, w=new: modified(c, o(q), w(q))
            yield 'the version is there', lambda q, w=new: Implies(And(has, VERS(c), Not(FHAS(c)[VERSION]), q.i > p), w(q)[VERSION] == VNUM(c))
    ex.loops['*'] = cands
    nt = ex.ext['collections.namedtuple']

    def namedtuple(ex, st, args, kw, node):
        return [(s, Exc(x.cls, x.args, node, {'by': 'names'}) if isinstance(x, Exc) else x) for s, x in nt(ex, st, args, kw, node)]
    ex.ext['collections.namedtuple'] = namedtuple
    t.trust('serializers are those of the library, for values that they do not save apart (blobs, schedules); a named tuple takes any field name that a dataclass has, unless it starts with an underscore')

    def ensures(s, r):
        return [('saves every component', serbody(v, ex.to_V(s, r), has))]
    t.check_fn(ex, st, f'{S}:asdict', [v, True, ss, fresh('file', Str)], ensures, lambda s, x: [] if x.attrs.get('by') == 'names' else [('saves values of every kind', FALSE)])


# ---- what is written is read back: dumping, the RON library, loading ----------------------------------------------
def pybody(s, d, py=None):
    """One level of what the RON library reads where s was written: structs become dicts that keep their names."""
    py = PY if py is None else py
    i, f = fresh('i', I), fresh('f', Str)
    return Or(And(V.is_nt(s), V.is_dict(d), FA([f], If(f == NAME, V.m(d)[f] == V.str(V.ntname(s)), And((V.ntm(s)[f] == V.absent) == (V.m(d)[f] == V.absent), Implies(V.ntm(s)[f] != V.absent, py(V.ntm(s)[f], V.m(d)[f])))), V.m(d)[f])),
              And(V.is_dict(s), V.is_dict(d), FA([f], And((V.m(s)[f] == V.absent) == (V.m(d)[f] == V.absent), Implies(V.m(s)[f] != V.absent, py(V.m(s)[f], V.m(d)[f]))), V.m(d)[f])),
              And(V.is_lst(s), V.is_lst(d), V.ln(s) == V.ln(d), FA([i], Implies(And(0 <= i, i < V.ln(s)), py(V.la(s)[i], V.la(d)[i])), V.la(d)[i])),
              And(V.is_tup(s), V.is_tup(d), V.tn(s) == V.tn(d), FA([i], Implies(And(0 <= i, i < V.tn(s)), py(V.ta(s)[i], V.ta(d)[i])), V.ta(d)[i])),
              And(Not(is_cont(s)), Not(V.is_enm(s)), s == d))


OK1, PY1 = Function('of.type.before', Ty, V, B), Function('reads.back.before', V, V, B)


def exact(t, v, ok):
    """v is of type t, with the classes that are declared (no subclasses) and the names that can be written."""
    c, f = Ty.tc(t), fresh('f', Str)
    i = fresh('i', I)
    return And(okbody(t, v, False, ok), Implies(Ty.is_TData(t), And(V.cls(v) == c, Not(FHAS(c)[NAME]), Not(FHAS(c)[WEAK]), Implies(VERS(c), Not(FHAS(c)[VERSION])), CNAME(c) != WEAK)),
               Implies(Ty.is_TUnion(t), And(V.is_obj(v), FA([i], Implies(And(0 <= i, i < Ty.tun(t)), And(Ty.is_TData(Ty.tua(t)[i]), Implies(ok(Ty.tua(t)[i], v), Ty.tc(Ty.tua(t)[i]) == V.cls(v)))), Ty.tua(t)[i]))),
               Implies(Ty.is_TDict(t), V.m(v)[WEAK] == V.absent), Implies(Ty.is_TLit(t), Not(Or(is_cont(v), V.is_enm(v)))),
               Implies(Ty.is_TEnum(t), Not(Or(is_cont(V.eval(v)), V.is_enm(V.eval(v)), V.is_none(V.eval(v)), V.eval(v) == V.absent))))


def lemma_axioms():
    v = z3.Const('v', V)
    # (a named tuple is no value of a config: there is nothing that it is saved as)
    return fields_axioms() + facts() + [FA([v], Implies(And(v != V.absent, Not(V.is_nt(v)), Not(And(V.is_enm(v), V.eval(v) == V.absent))), serbody(v, SERF(v), z3.BoolVal(True))), SERF(v)), FA([v], Implies(v != V.absent, SERF(v) != V.absent), SERF(v))]


def written_then_read(t):
    """A value of a type, saved and read back as a document, is a document that from_dict turns into it."""
    t.engine(axioms=lemma_axioms())
    t.prover.noext = True
    T, S_ = z3.Const('T', Ty), z3.Const('S', Ty)
    v, d, x, y, s = (z3.Const(n, V) for n in ('v', 'd', 'x', 'y', 's'))
    c, f = z3.Const('c', Cls), z3.Const('f', Str)
    # by induction over values: components were saved and read back before
    ih = FA([S_, x, y], Implies(And(OK1(S_, x), PY1(SERF(x), y)), RTP(S_, x, y)), (OK1(S_, x), PY1(SERF(x), y)))
    # only structs and dicts are read as dicts, and none of them has a key that marks defaults (see `exact`)
    notweak = FA([x, y], Implies(PY1(x, y), Not(weakly(y))), PY1(x, y))
    left_out = FA([c, f, x], Implies(And(OK1(FTYA(c)[f], x), elided(c, f, SERF(x))), EQV(defv(c, f), x)), (OK1(FTYA(c)[f], x), SERF(x), FHAS(c)[f]))
    pres = FA([S_, x], Implies(OK1(S_, x), x != V.absent), OK1(S_, x))
    t.trust('the RON library reads what it wrote: scalars unchanged, lists, tuples and dicts by component, structs as dicts that keep their name')
    for k in KINDS:
        if k == 'other':
            continue
        for o in (False, True):
            T1 = Ty.to(T) if o else T
            opt = [Not(V.is_none(v))] if o else []
            base = opt + [is_kind(T1, k), wellformed(T1), exact(T1, v, OK1), v != V.absent, pybody(SERF(v), d, PY1), pres]
            goal = And(Not(V.is_none(d)) if o else TRUE, rtbody(T1, v, d, True, False, kind=k))
            here = [ih, notweak, left_out]
            if k == 'data':
                here += [FA([c], V.is_int(VNUM(c)), VNUM(c)), FA([x, y], Implies(And(PY1(x, y), Not(is_cont(x)), Not(V.is_enm(x))), x == y), PY1(x, y))]
            if k == 'union':
                # the value is of one of the types by a shorter derivation, with the same document
                here = [FA([S_], Implies(OK1(S_, v), RTP(S_, v, d)), OK1(S_, v))]
                prims = FA([S_], Implies(Ty.is_TData(S_), Not(okprim(S_, v))), OK1(S_, v))
                here.append(prims)
            if not t.cover(base + here):
                t.prove(f'{k} can be written', [], FALSE)
            t.prove(f'what is written for {"an optional" if o else "a"} {k} is read back as a document of it', base + here, goal)
        if True:
            t.prove(f'none of an optional type is written and read as none ({k})', [V.is_none(v), pybody(SERF(v), d, PY1)], V.is_none(d))


def defaults_are_equal(t):
    """A value that may be left out equals its default: what is saved of it compares equal to the default only then."""
    x_, y_ = z3.Const('x', V), z3.Const('y', V)
    i, f = z3.Int('i'), z3.Const('f', Str)
    pe = Function('pyeq.before', V, V, B)        # == on components
    # == on containers, level by level; what a struct is saved as (a named tuple or a dict) equals no object
    conts = [FA([x_, y_], Implies(And(V.is_lst(x_), V.is_lst(y_), pyeq(x_, y_)), And(V.ln(x_) == V.ln(y_), FA([i], Implies(And(0 <= i, i < V.ln(x_)), pe(V.la(x_)[i], V.la(y_)[i])), V.la(x_)[i], V.la(y_)[i]))), pyeq(x_, y_)),
             FA([x_, y_], Implies(And(V.is_tup(x_), V.is_tup(y_), pyeq(x_, y_)), And(V.tn(x_) == V.tn(y_), FA([i], Implies(And(0 <= i, i < V.tn(x_)), pe(V.ta(x_)[i], V.ta(y_)[i])), V.ta(x_)[i], V.ta(y_)[i]))), pyeq(x_, y_)),
             FA([x_, y_], Implies(And(V.is_dict(x_), V.is_dict(y_), pyeq(x_, y_)), FA([f], And((V.m(x_)[f] == V.absent) == (V.m(y_)[f] == V.absent), Implies(V.m(x_)[f] != V.absent, pe(V.m(x_)[f], V.m(y_)[f]))), V.m(x_)[f], V.m(y_)[f])), pyeq(x_, y_)),
             FA([x_, y_], Implies(And(is_cont(x_), pyeq(x_, y_)), Or(*[And(getattr(V, 'is_' + k)(x_), getattr(V, 'is_' + k)(y_)) for k in ('lst', 'tup', 'dict', 'obj', 'nt')],
                                                                   And(V.is_nt(x_), V.is_tup(y_)), And(V.is_tup(x_), V.is_nt(y_)))), pyeq(x_, y_))]
    t.engine(axioms=lemma_axioms() + conts)
    t.prover.noext = True
    t.trust('== compares lists, tuples and dicts by component, and an object only with objects; what a struct is saved as is no object')
    T, S_ = z3.Const('T', Ty), z3.Const('S', Ty)
    v, d = z3.Const('v', V), z3.Const('default', V)
    ih = FA([S_, x_, y_], Implies(And(OK1(S_, x_), OK1(S_, y_), pe(SERF(x_), y_)), EQV(y_, x_)), (OK1(S_, x_), OK1(S_, y_), pe(SERF(x_), y_)))
    pres = FA([S_, x_], Implies(OK1(S_, x_), x_ != V.absent), OK1(S_, x_))
    for k in KINDS:
        if k == 'other':
            continue
        for o in (False, True):
            T1 = Ty.to(T) if o else T
            both = [is_kind(T1, k), wellformed(T1), pres, ih, v != V.absent, d != V.absent, pyeq(SERF(v), d)]
            is_ = lambda y: Or(V.is_none(y), exact(T1, y, OK1)) if o else exact(T1, y, OK1)
            t.prove(f'{"an optional" if o else "a"} {k} that is left out equals its default', both + [is_(v), is_(d)], Or(eqbody(d, v)))


# ---- what the library's own (de)serializers do -----------------------------------------------------------------------
VM = 'hyperstate.schema.versioned'


def serializer(t, qual, versioned=False):
    """modify_dataclass_attrs: fields stay or are left out because they hold their default; the version is added."""
    ex = t.engine(axioms=fields_axioms())
    ex.merge = t.prover.noext = True
    st = St()
    install(t, ex)
    v, old = z3.Const('value', V), fresh('attrs', M)
    c, f = V.cls(v), fresh('f', Str)
    st.assume(V.is_obj(v), FA([f], Implies(FHAS(c)[f], old[f] != V.absent), FHAS(c)[f]),
              FA([f], Implies(old[f] != V.absent, Or(FHAS(c)[f], And(f == VERSION, VERS(c), old[f] == VNUM(c)))), old[f]))
    # dataclasses refuse a field with a default and a factory
    st.assume(FA([f], Or(FDEFA(c)[f] == MISSING, FFACA(c)[f] == MISSING), FDEFA(c)[f], FFACA(c)[f]))
    from contracts import wiring
    vcls, me = wiring.cls_of('Versioned'), wiring.cls_of(qual)
    isi = ex.ext['isinstance']
    ex.ext['isinstance'] = lambda ex, st, a, b: [(st, VERS(V.cls(v)))] if b is vcls and isz(a) and a.eq(v) else isi(ex, st, a, b)
    ca = ex.ext['attr:class.*']

    def class_attr(ex, st, x, name):
        if name == 'version':
            return [(st, Lam('version', lambda ex, s, a, k, n: [(s, VNUM(V.cls(x.attrs['__of__'])))]))]
        return ca(ex, st, x, name)
    ex.ext['attr:class.*'] = class_attr
    attrs = ex.newdoc(st, V.dict(old))
    self_ = ex.alloc(st, HObj(me, {}))
    mm = fields_map(c)

    def cands(loop):
        if not loop.isfor:
            return
        k = fresh('k', Str)
        for a in [a for a, cc in loop.cells.items() if cc[0] == 'doc']:
            yield 'a struct', lambda q, a=a: V.is_dict(q.root(a))
            yield 'what is no field stays', lambda q, a=a: FA([k], Implies(Not(FHAS(c)[k]), V.m(q.root(a))[k] == old[k]), V.m(q.root(a))[k])
            yield 'fields not seen stay', lambda q, a=a: FA([k], Implies(And(FHAS(c)[k], mm.idx(k) >= q.i), V.m(q.root(a))[k] == old[k]), V.m(q.root(a))[k])
            yield 'fields seen stay or are left out', lambda q, a=a: FA([k], Implies(And(FHAS(c)[k], mm.idx(k) < q.i), Or(V.m(q.root(a))[k] == old[k], And(V.m(q.root(a))[k] == V.absent, elided(c, k, old[k])))), V.m(q.root(a))[k])
            yield 'fields seen are put back', lambda q, a=a: FA([k], V.m(q.root(a))[k] == If(And(old[k] != V.absent, u.kidx(old, k) < q.i), old[k], If(k == VERSION, VNUM(c), V.absent)), V.m(q.root(a))[k])
    ex.loops['*'] = cands

    def ensures(s, r):
        new = V.m(ex.to_V(s, attrs))
        out = [('keeps every field that does not hold its default, and adds nothing but the version', And(V.is_dict(ex.to_V(s, attrs)), modified(c, old, new)))]
        if versioned:
            out.append(('records the version', Implies(And(VERS(c), Not(FHAS(c)[VERSION])), new[VERSION] == VNUM(c))))
        return out
    fn, _ = me.find('modify_dataclass_attrs')
    t.check_fn(ex, st, fn.qual, [self_, v, attrs, fresh('path', Str)], ensures, lambda s, x: [('fails on no object', FALSE)])


def transparent(t, qual):
    """serialize and deserialize leave values alone that are not theirs."""
    from contracts import wiring
    me = wiring.cls_of(qual)
    fn, _ = me.find('serialize')
    ex = t.engine(axioms=fields_axioms())
    st = St()
    install(t, ex)
    scls = wiring.cls_of('Serializable')
    isi = ex.ext['isinstance']
    ex.ext['isinstance'] = lambda ex, st, a, b: [(st, False)] if b is scls else isi(ex, st, a, b)
    self_ = ex.alloc(st, HObj(me, {'blobs': ex.alloc(st, HDict(()))}))

    def ensures(s, r):
        r = ex.deref(s, r)
        return [('leaves values alone that are not saved apart', Not(tobool(ex.truth(s, r.items[1]))) if isinstance(r, Tup) and len(r.items) == 2 else FALSE)]
    t.check_fn(ex, st, fn.qual, [self_, z3.Const('value', V), fresh('path', Str), True], ensures, lambda s, x: [('fails on no value', FALSE)])


def deserializer(t, qual):
    """What the deserializers of the library do with the document of a saved value: take the version off, or nothing."""
    from contracts import wiring
    me = wiring.cls_of(qual)
    fn, _ = me.find('deserialize')
    for kind in KINDS:
        if kind == 'other':
            continue
        ex = t.engine(axioms=pure_facts() + facts())
        ex.merge = t.prover.noext = True
        st = St()
        install(t, ex)
        T, v, d = z3.Const('T', Ty), z3.Const('value', V), z3.Const('doc', V)
        c = Ty.tc(T)
        pre = fresh('with_version', B)
        st.assume(wellformed(T), is_kind(T, kind), plain(d), PURE(d), z3.If(pre, rtbody(T, v, d, True, False, kind=kind), rtbody(T, v, d, False, False, kind=kind)))
        vcls, scls = wiring.cls_of('Versioned'), wiring.cls_of('Serializable')
        ex.ext['issubclass'] = lambda ex, st, a, b: [(st, And(Ty.is_TData(a), VERS(Ty.tc(a))))] if b is vcls and isz(a) else [(st, False)] if b is scls else None
        st.assume(FA([z3.Const('c', Cls)], And(V.is_int(VNUM(z3.Const('c', Cls))), V.i(VNUM(z3.Const('c', Cls))) >= 0), VNUM(z3.Const('c', Cls))))
        tya = ex.attrs['Ty']

        def ty_attr(ex, st, x, name):
            if name == '_apply_upgrades':
                def up(ex, st, a, k, n):
                    e = dict(zip(['state_dict', 'version'], a), **k)
                    ex.oblige(st, 'upgrades from the current version, which changes nothing (C06)', ex.to_V(st, e['version']) == VNUM(Ty.tc(x)))
                    return [(st, e['state_dict'])]
                return [(st, Lam(name, up))]
            return tya(ex, st, x, name)
        ex.attrs['Ty'] = ty_attr
        doc = ex.newdoc(st, d) if kind in ('dict', 'data', 'union') else d
        self_ = ex.alloc(st, HObj(me, {'allow_missing_version': fresh('allow', B), 'schedules': ex.alloc(st, HDict(())), 'config': fresh('config', V), 'path': fresh('dir', V), 'lazy_fields': ex.alloc(st, HDict(()))}))

        def ensures(s, r):
            r = ex.deref(s, r)
            if not (isinstance(r, Tup) and len(r.items) == 3):
                return [('returns a value and two flags', FALSE)]
            ok, ret = (tobool(ex.truth(s, x)) for x in r.items[1:])
            out = [('goes on with the other steps', Not(ret))]
            now = ex.to_V(s, r.items[0]) if r.items[0] is not None else V.none
            after = If(ok, now, d)
            if kind == 'data':
                k = fresh('k', Str)
                vers = qual == 'VersionedDeserializer'
                here = If(ok, now, ex.to_V(s, doc))
                out.append(('the document stays, but for the version', And(V.is_dict(here), If(And(k == VERSION, VERS(c), z3.BoolVal(vers)), V.m(here)[k] == V.absent, V.m(here)[k] == V.m(d)[k]))))
            else:
                out.append(('the document stays', And(after == d, ex.to_V(s, doc) == d)))
            return out
        # (a document without its version is only seen after the versioned step)
        if qual == 'VersionedDeserializer':
            st.assume(pre)
        t.check_fn(ex, st, fn.qual, [self_, T, doc, fresh('path', Str)], ensures, lambda s, x: [('refuses no saved value', FALSE)], label=f'{qual}.deserialize ({kind})')


def dumping(t):
    """dumps and dump: what asdict makes of the object is written, structs with their names."""
    for name in ('dumps', 'dump'):
        ex = t.engine()
        st = St()
        install(t, ex)
        v, made, text = z3.Const('value', V), z3.Const('made', V), fresh('text', Str)
        noss, ss = fresh('noserializers', B), fresh('serializers', z3.DeclareSort('Opq'))

        def asd(ex, st, fn, a, k, n):
            out = []
            for s, e in ex.bind_args(st, fn, a, k, n):
                if not isinstance(e, Exc):
                    d = e['serializers']
                    empty = not isz(d) and not isinstance(d, Maybe) and (d is None or isinstance(ex.deref(s, d), Ref) and isinstance(s.heap[ex.deref(s, d).a], HList) and not s.heap[ex.deref(s, d).a].items)
                    ex.oblige(s, 'saves the object', ex.to_V(s, e['value']) == v)
                    ex.oblige(s, 'saves the names of structs', tobool(ex.truth(s, e['named_tuples'])))
                    ex.oblige(s, 'uses the serializers given', noss if empty else If(noss, z3.BoolVal(isinstance(d, Maybe)), (d.val if isinstance(d, Maybe) else d) == ss))
                    e = made
                out.append((s, e))
            return out
        ex.contracts[f'{S}:asdict'] = asd
        TEXT = Function('written', V, Str)
        ex.ext['pyron.to_string'] = lambda ex, st, a, k, n: [(st, TEXT(ex.to_V(st, a[0])))]
        files = []

        def open_(ex, st, a, k, n):
            ex.oblige(st, 'opens the file given for writing', z3.BoolVal((a[1] if len(a) > 1 else k.get('mode')) == 'w' and isz(a[0]) and a[0].eq(path)))
            F = z3.DeclareSort('File')
            return [(st, z3.Const('file', F))]
        path = z3.Const('path', z3.DeclareSort('Path'))
        ex.ext['builtins.open'] = open_

        def fattr(ex, st, x, nm):
            def write(ex, st, a, k, n):
                st.ghost = dict(st.ghost, written=tuple(st.ghost.get('written', ())) + (toStr(a[0]),))
                return [(st, None)]
            m = {'write': write, '__enter__': lambda ex, st, a, k, n: [(st, x)], '__exit__': lambda ex, st, a, k, n: [(st, None)], 'close': lambda ex, st, a, k, n: [(st, None)]}.get(nm)
            return None if m is None else [(st, Lam(nm, m))]
        ex.attrs['File'] = fattr
        t.assumed.add(f'{S}:asdict')

        def ensures(s, r):
            out = [('returns the text of what was saved', toStr(r) == TEXT(made))]
            if name == 'dump':
                w = s.ghost.get('written', ())
                out.append(('writes that text, once', w[0] == TEXT(made) if len(w) == 1 else FALSE))
            return out
        t.check_fn(ex, st, f'{S}:{name}', [v, Maybe(noss, ss)] if name == 'dumps' else [v, path, Maybe(noss, ss)], ensures, lambda s, x: [('fails on no object that can be saved', FALSE)])

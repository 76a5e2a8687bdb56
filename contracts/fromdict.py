"""from_dict, _try_create_defaults and _replace_weak_refs: what a loaded value holds (C03) and where it comes from (C04)."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr, tobool, IterSpec
from pydv.loops import UNB
from contracts.annot import *
from contracts import annot
from z3 import And, Or, Not, Implies, If, IntVal, Store, Select

LASTD = z3.Function('last.deserializer', Deser, B)
IG = z3.Const('ignore_extra_fields', B)
DS = z3.Function('deserializers', z3.ArraySort(I, Deser))
# (true of everything; they only tell the prover which values the two lemmas below are wanted for)
NEED = z3.Function('need', V, B)
NEED2 = z3.Function('need2', V, V, B)


class Env:
    def __init__(self, t, aspect, self_qual):
        self.t, self.aspect = t, aspect
        self.ex = ex = t.engine(axioms=axioms(aspect))
        ex.merge = t.prover.noext = True
        self.st = St()
        install(t, ex)
        self.nods = fresh('nodes', B)
        self.nds = fresh('nds', I)
        self.dsa = fresh('ds', z3.ArraySort(I, Deser))
        self.ds = Seq(self.nds, SLeaf(Deser), [self.dsa])
        self.st.assume(self.nds >= 0)
        j = fresh('j', I)
        self.st.assume(FA([j], Implies(And(0 <= j, j < self.nds, LASTD(self.dsa[j])), j == self.nds - 1), self.dsa[j]))
        ex.contracts[f'{S}:from_dict'] = self.from_dict
        ex.contracts[f'{S}:is_optional'] = lambda ex, st, fn, a, k, n: [(st, Ty.is_TOpt(a[0] if a else k['clz']))]
        ex.contracts[f'{S}:_try_create_defaults'] = self.tcd
        ex.contracts[f'{S}:_replace_weak_refs'] = self.rwr
        t.assumed |= {f'{S}:from_dict', f'{S}:_try_create_defaults', f'{S}:_replace_weak_refs'} - self_qual | {f'{S}:is_optional'}
        ex.attrs['Deser'] = self.deser
        ex.loops['*'] = self.loops
        t.trust('dataclasses are plain: a generated __init__ over all fields, no __post_init__; a declared default is a value of the declared type')
        t.trust('a deserializer returns (value, used, final); a final value is one of the type; only the last deserializer gives final values')
        t.trust('annotations outside List, Tuple, Dict, Optional, Union, Literal, Enum, dataclasses and int, float, str, bool are not judged')

    def deser(self, ex, st, v, name):
        if name != 'deserialize':
            return None

        def f(ex, st, a, k, n):
            names = ['clz', 'value', 'path']
            e = dict(zip(names, a), **{('clz' if x == 'cls' else x): y for x, y in k.items()})
            T = e['clz']
            val, ok, ret = fresh('handed', V), fresh('ok', B), fresh('ret', B)
            s2 = st.fork()
            st.assume(Implies(ret, And(ok, LASTD(v))))
            st.assume(Implies(And(ok, Not(ret)), And(PURE(val), plain(val))))
            st.assume(Implies(ret, OK(T, val)))
            ex.oblige(st, 'deserializers see the value as it is by now', ex.to_V(st, e['value']) == st.ghost['handed'])
            st.ghost = dict(st.ghost, handed=If(ok, val, st.ghost['handed']))
            return [(st, Tup([val, ok, ret])), (s2, Exc(bt('Exception'), node=n))]
        return [(st, Lam('deserialize', f))]

    def passes_on(self, s, e):
        """Children are loaded under the same rules."""
        ex = self.ex
        P = lambda n, g: ex.oblige(s, n, g)
        P('passes on whether extra fields are ignored', tobool(e['ignore_extra_fields']) == IG)
        d = e['deserializers']
        if isinstance(d, Maybe):
            P('passes on the deserializers', And(z3.BoolVal(isinstance(d.val, Seq) and d.val.leaves[0].eq(self.dsa)), d.isnone == self.nods))
        elif isinstance(d, Seq):
            P('passes on the deserializers', And(z3.BoolVal(d.leaves[0].eq(self.dsa)), Not(self.nods)))
        else:
            d = ex.deref(s, d)
            empty = d is None or isinstance(d, Ref) and isinstance(s.heap[d.a], HList) and not s.heap[d.a].items
            P('passes on the deserializers', And(z3.BoolVal(empty), self.nods))

    def fails(self, s, node):
        return (s.fork(), Exc(bt('TypeError'), node=node, attrs={'by': 'child'}))

    def from_dict(self, ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            self.passes_on(s, e)
            v = ex.to_V(s, e['value'])
            if not isz(e['clz']):
                raise Unsupported('from_dict with a type that is not taken from an annotation')
            ex.oblige(s, 'loads a value of the document', PURE(v))
            r = fresh('loaded', V)
            out.append(self.fails(s, node))
            s.assume(r != V.absent)
            s.assume(OK(e['clz'], r) if self.aspect == 'type' else USED(e['clz'], v, r))
            out.append((s, r))
        return out

    def remaining(self, s, x):
        x = self.ex.deref(s, x)
        m = getattr(x, 'mapkeys', None) or self.ex.as_map(s, x)
        if m is not None:
            return m.has
        if isinstance(x, Ref) and isinstance(s.heap[x.a], HSSet):
            return s.heap[x.a].arr
        if isinstance(x, SetVal):
            return x.arr
        raise Unsupported('remaining fields')

    def docarg(self, s, x):
        return V.m(self.ex.to_V(s, x))

    def tcd(self, ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            k = list(e)
            T, kw, rem, weak = e[k[0]], ex.deref(s, e[k[1]]), self.remaining(s, e[k[2]]), ex.to_V(s, e[k[4]])
            self.passes_on(s, e)
            c = tcl(T)
            f = fresh('f', Str)
            K0 = self.docarg(s, kw)
            ex.oblige(s, 'creates defaults of a dataclass', Ty.is_TData(T))
            ex.oblige(s, 'creates only fields of the class', FA([f], Implies(rem[f], And(FHAS(c)[f], K0[f] == V.absent)), rem[f]))
            ex.oblige(s, 'weak values come in a struct', V.is_dict(weak))
            ex.oblige(s, 'weak values are of the document', Or(PURE(weak), self.pure_map(weak)))
            out.append(self.fails(s, node))
            K1 = fresh('kwargs', M)
            s.assume(self.tcd_post(c, rem, V.m(weak), K0, K1))
            s.ghost = dict(s.ghost, **{})
            s.ghost[('built',)] = (c, V.m(weak))
            if isinstance(kw, Ref):
                s.heap[kw.a] = HDoc(V.dict(K1))
                s.muts[kw.a] = s.muts.get(kw.a, ()) + (('*', None),)
            else:
                p = ex.doc_norm(s, kw)
                if p.segs:
                    raise Unsupported('keyword arguments inside a document')
                s.heap[p.a] = HDoc(V.dict(K1))
                s.muts[p.a] = s.muts.get(p.a, ()) + (('*', None),)
            out.append((s, None))
        return out

    def pure_map(self, w):
        k = fresh('k', Str)
        return FA([k], Implies(V.m(w)[k] != V.absent, PURE(V.m(w)[k])), V.m(w)[k])

    def added(self, c, f, x, y):
        """Field f among the constructor's arguments, given x in the document."""
        if self.aspect == 'used':
            return frel(c, f, x, y, False)
        return And(Implies(y != V.absent, OK(FTYA(c)[f], y)), Implies(And(Not(hasdef(c, f))), y != V.absent))

    def tcd_post(self, c, rem, w, K0, K1):
        f = fresh('f', Str)
        return FA([f], If(rem[f], self.added(c, f, w[f], K1[f]), K1[f] == K0[f]), K1[f])

    def rwr(self, ex, st, fn, args, kwargs, node):
        out = []
        for s, e in ex.bind_args(st, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s, e))
                continue
            k = list(e)
            d, w = ex.to_V(s, e[k[0]]), ex.to_V(s, e[k[1]])
            self.passes_on(s, e)
            ex.oblige(s, 'weak values come in a struct', V.is_dict(w))
            ex.oblige(s, 'weak values are of the document', Or(PURE(w), self.pure_map(w)))
            s.assume(NEED(d))
            if self.aspect == 'type':
                ex.oblige(s, 'the default holds values of the declared types', instok(d))
            out.append(self.fails(s, node))
            y = fresh('replaced', V)
            s.assume(y != V.absent, NEED2(d, y))
            s.assume(self.kept(d, y) if self.aspect == 'type' else REPL(d, w, y))
            out.append((s, y))
        return out

    def kept(self, d, y):
        """y is of the same kind as d, and holds values of the declared types if d does."""
        return And(Implies(Not(V.is_obj(d)), y == d), Implies(V.is_obj(d), And(V.is_obj(y), V.cls(y) == V.cls(d))), instok(y))

    def loops(self, loop):
        """Candidates: what each cell and variable holds after the first i elements."""
        ex = self.ex
        asp = self.aspect
        hand = self.st.ghost.get('handed')
        for nm in loop.vars:
            def last(v, nm=nm):
                x = v.get(nm)
                return None if x is UNB or not (isz(x) and x.sort() == V) else x == v.st.ghost['handed']
            yield f'{nm} is what deserializers handed over', last
            for nb in loop.vars:
                def final(v, nm=nm, nb=nb):
                    x, b = v.get(nm), v.get(nb)
                    if z3.is_int_value(v.i) and v.i.as_long() == 0 and (x is UNB or b is UNB):
                        return True if b is UNB else Not(tobool(b)) if isinstance(b, bool) or isz(b) and b.sort() == B else None
                    if x is UNB or b is UNB or not (isz(x) and x.sort() == V) or not (isinstance(b, bool) or isz(b) and b.sort() == B):
                        return None
                    return Implies(tobool(b), And(x == v.st.ghost['handed'], v.i == v.n, *( [OK(self.T1, x)] if asp == 'type' else [])))
                if nb != nm:
                    yield f'{nm} is final if {nb}', final
        if 'handed' in loop.ghosts or any(isinstance(g, str) and g == 'handed' for g in loop.ghosts):
            def pure(v):
                h = v.st.ghost['handed']
                bs = [tobool(x) for x in (v.get(n) for n in loop.vars) if isinstance(x, bool) or isz(x) and x.sort() == B]
                return Or([And(PURE(h), plain(h))] + bs)
            yield 'handed over a document unless final', pure

            def pure1(v, n=None):
                h = v.st.ghost['handed']
                x = v.get(n)
                if x is UNB:
                    return And(PURE(h), plain(h)) if z3.is_int_value(v.i) and v.i.as_long() == 0 else None
                return Or(And(PURE(h), plain(h)), tobool(x)) if isinstance(x, bool) or isz(x) and x.sort() == B else None
            for n in loop.vars:
                yield f'handed over a document unless {n}', lambda v, n=n: pure1(v, n)
        if not loop.isfor:
            return
        el = loop.elem(St(), z3.Const('probe', I))
        m = None
        if isinstance(el, Tup) and len(el.items) == 2 and isz(el.items[1]) and z3.is_select(el.items[1]) and el.items[0].sort() == Str and el.items[0].decl().eq(u.kat):
            m = el.items[0].arg(0)
        docs = [a for a, c in loop.cells.items() if c[0] == 'doc']
        sets = [a for a, c in loop.cells.items() if c[0] == 'sset']
        k = fresh('k', Str)
        if m is not None and self.fields_of is not None:
            c = self.fields_of
            x = m[k]
            seen = lambda v: And(x != V.absent, u.kidx(m, k) < v.i)
            for a in docs:
                def loaded(v, a=a):
                    K = V.m(v.root(a))
                    rel = OK(FTYA(c)[k], K[k]) if asp == 'type' else USED(FTYA(c)[k], x, K[k])
                    return And(V.is_dict(v.root(a)), FA([k], Implies(K[k] != V.absent, And(seen(v), given(x), k != NAME, FHAS(c)[k], rel)), K[k]))
                yield 'arguments are loaded from the document', loaded
                yield 'every field seen is loaded', lambda v, a=a: FA([k], Implies(And(seen(v), given(x), k != NAME, FHAS(c)[k]), V.m(v.root(a))[k] != V.absent), x, V.m(v.root(a))[k])

                def weaks(v, a=a):
                    W = V.m(v.root(a))
                    return And(V.is_dict(v.root(a)), FA([k], W[k] == If(And(seen(v), weakly(x), k != NAME), x, V.absent), W[k]))
                yield 'weak values are set aside', weaks
                for r in sets:
                    yield 'remaining fields are those not given', lambda v, a=a, r=r: FA([k], v.st.heap[r].arr[k] == And(FHAS(c)[k], V.m(v.root(a))[k] == V.absent), v.st.heap[r].arr[k])
            yield 'unknown fields are refused', lambda v: FA([k], Implies(And(seen(v), k != NAME, Not(weakly(x))), Or(FHAS(c)[k], IG)), x)
        if self.rem is not None:
            c, rem, w, K0 = self.rem
            at = None
            q = loop.elem(St(), z3.Const('probe', I))
            if isz(q) and q.sort() == Str:
                idx = z3.Function(f'set.idx:{Str}', rem.sort(), Str, I)
                done = lambda v: And(rem[k], idx(rem, k) < v.i)
                lists = [a for a, cc in loop.cells.items() if cc[0] == 'seq']
                for a in docs:
                    for l in lists + [None]:
                        def added(v, a=a, l=l):
                            K = V.m(v.root(a))
                            none = TRUE if l is None else v.cell(l).n == 0
                            return Implies(none, FA([k], Implies(done(v), self.added(c, k, w[k], K[k])), K[k]))
                        yield 'fields dealt with', added
                    yield 'other arguments stay', lambda v, a=a: And(V.is_dict(v.root(a)), FA([k], Implies(Not(done(v)), V.m(v.root(a))[k] == K0[k]), V.m(v.root(a))[k]))
        if self.inst is not None:
            d, w = self.inst
            c, om = V.cls(d), V.om(d)
            mm = fields_map(c)
            for a in docs:
                def vals(v, a=a):
                    K = V.m(v.root(a))
                    y = K[k]
                    if asp == 'type':
                        rel = OK(FTYA(c)[k], y)
                    else:
                        rel = If(weakly(w[k]), REPL(om[k], w[k], y), USED(FTYA(c)[k], w[k], y))
                    return And(V.is_dict(v.root(a)), FA([k], Implies(y != V.absent, And(FHAS(c)[k], w[k] != V.absent, rel)), y))
                yield 'values to replace', vals
                yield 'every value given is replaced', lambda v, a=a: FA([k], Implies(And(FHAS(c)[k], mm.idx(k) < v.i, w[k] != V.absent), V.m(v.root(a))[k] != V.absent), V.m(v.root(a))[k], FHAS(c)[k])

    rem = inst = fields_of = T1 = None

    def retvars(self, loop):
        return [n for n in loop.vars]


def axioms(aspect):
    c, f = z3.Const('c', Cls), z3.Const('f', Str)
    t, v, w = z3.Const('t', Ty), z3.Const('v', V), z3.Const('w', V)
    ax = pure_facts() + [FA([c, f], Implies(And(FHAS(c)[f], hasdef(c, f)), And(defv(c, f) != V.absent, OK(FTYA(c)[f], defv(c, f)))), FHAS(c)[f]),
                         FA([c], SUBC(c, c), SUBC(c, c)), u.klen(EMPTY_M) == 0, PURE(WEAKDOC),
                         FA([t, v], Implies(OK(t, v), v != V.absent), OK(t, v)),
                         FA([t, v, w], Implies(USED(t, v, w), w != V.absent), USED(t, v, w))]
    if aspect == 'type':
        # the lemmas proved in `instances`
        ax += [FA([t, v], Implies(OK(t, v), instok(v)), (OK(t, v), NEED(v))),
               FA([t, v, w], Implies(And(OK(t, v), V.is_obj(v), V.is_obj(w), V.cls(v) == V.cls(w), instok(w)), OK(t, w)), (OK(t, v), NEED2(v, w)))]
    return ax


KINDS = {'list': ['TList'], 'tuple': ['TTup'], 'dict': ['TDict'], 'data': ['TData'], 'enum': ['TEnum'], 'literal': ['TLit'], 'union': ['TUnion'],
         'basic': ['TInt', 'TFlt', 'TStr', 'TBool', 'TNoneT'], 'other': ['TOther']}


def is_kind(t, k):
    return Or([getattr(Ty, 'is_' + x)(t) for x in KINDS[k]])


def instances(t):
    """The two lemmas about "value of a type", by induction over the type: components of t are smaller than t."""
    t.engine(axioms=pure_facts())
    T, S_ = z3.Const('T', Ty), z3.Const('S', Ty)
    v, w, x = z3.Const('v', V), z3.Const('w', V), z3.Const('x', V)
    OK1 = z3.Function('of.type.before', Ty, V, B)          # what holds by derivations of fewer steps
    ih0 = FA([S_, x], Implies(OK1(S_, x), OK(S_, x)), OK1(S_, x))
    for k, ps in KINDS.items():
        for o in (False, True):
            here = [is_kind(Ty.to(T) if o else T, k), Ty.is_TOpt(T) == o, wellformed(T), Implies(Ty.is_TOpt(T), wellformed(Ty.to(T))), okbody(T, v, ok=OK1), ih0]
            of = ('an optional ' if o else 'a ') + k
            ih = FA([S_], Implies(OK1(S_, v), instok(v)), OK1(S_, v))
            t.prove(f'an instance of {of} type holds values of its fields\' types', here + [ih], instok(v))
            same = And(V.is_obj(v), V.is_obj(w), V.cls(v) == V.cls(w), instok(w))
            ih2 = FA([S_], Implies(OK1(S_, v), OK(S_, w)), OK1(S_, v))
            t.prove(f'replacing fields by values of their types keeps {of} type', here + [same, ih2], okbody(T, w))


# (the proof about dataclasses goes by whether the type is optional and whether there are deserializers)
PARTS = {k: [()] for k in KINDS}
PARTS['data'] = [(o, n) for o in (False, True) for n in (False, True)]


def from_dict_tasks(aspect, prefix, into):
    """One task function per kind of type."""
    names = []
    for k, ps in PARTS.items():
        for i, p in enumerate(ps):
            nm = prefix + k + (str(i + 1) if p else '')
            into[nm] = lambda t, k=k, p=p: from_dict(t, aspect, k, *p)
            names.append(nm)
    return names


def kinds_cover(t):
    """The kinds of types the proofs go by are all there are."""
    t.engine()
    T = z3.Const('T', Ty)
    t.prove('every wellformed annotation is of one of the kinds', [wellformed(T)], Or([is_kind(If(Ty.is_TOpt(T), Ty.to(T), T), k) for k in KINDS]))


def from_dict(t, aspect, kind, opt=None, nods=None):
    E = Env(t, aspect, {f'{S}:from_dict'})
    ex, st = E.ex, E.st
    T, v, path = z3.Const('T', Ty), z3.Const('value', V), fresh('fpath', Str)
    st.assume(wellformed(T), And(PURE(v), plain(v)))
    st.ghost['handed'] = v
    E.T1 = If(Ty.is_TOpt(T), Ty.to(T), T)
    E.fields_of = Ty.tc(E.T1)
    st.assume(is_kind(E.T1, kind))
    if opt is not None:
        st.assume(Ty.is_TOpt(T) == opt, E.nods == nods)
    st.assume(Implies(Ty.is_TOpt(T), wellformed(Ty.to(T))))

    def ensures(s, r):
        rv = ex.to_V(s, r)
        h = s.ghost['handed']
        if aspect == 'type':
            return [('returns a value of the declared type', Or(OK(T, rv), okbody(T, rv)))]
        return [('uses every value given, and defaults for the rest', If(And(Ty.is_TOpt(T), V.is_none(v)), V.is_none(rv), Or(usedbody(E.T1, h, rv, IG, False), rv == h)))]
    t.check_fn(ex, st, f'{S}:from_dict', [T, v, Maybe(E.nods, E.ds), path, IG], ensures, lambda s, x: [])


def try_create_defaults(t, aspect):
    E = Env(t, aspect, {f'{S}:_try_create_defaults'})
    ex, st = E.ex, E.st
    c = z3.Const('c', Cls)
    w, K0, rem = fresh('weak', M), fresh('kwargs', M), fresh('remaining', z3.ArraySort(Str, B))
    f = fresh('f', Str)
    st.assume(FA([f], Implies(rem[f], And(FHAS(c)[f], K0[f] == V.absent)), rem[f]), E.pure_map(V.dict(w)))
    E.rem = (c, rem, w, K0)
    kw = ex.newdoc(st, V.dict(K0))
    wk = ex.newdoc(st, V.dict(w))

    def ensures(s, r):
        K1 = V.m(ex.to_V(s, kw))
        g = fresh('g', Str)
        return [('fills in every remaining field', And(Implies(rem[g], E.added(c, g, w[g], K1[g])), Implies(Not(rem[g]), K1[g] == K0[g])))]
    t.check_fn(ex, st, f'{S}:_try_create_defaults', [Ty.TData(c), kw, SetVal(rem), fresh('fpath', Str), wk, Maybe(E.nods, E.ds), IG], ensures, lambda s, x: [])


def replace_weak_refs(t, aspect):
    E = Env(t, aspect, {f'{S}:_replace_weak_refs'})
    ex, st = E.ex, E.st
    d, w = z3.Const('default', V), fresh('weak', M)
    st.assume(E.pure_map(V.dict(w)), d != V.absent)
    if aspect == 'type':
        st.assume(instok(d))
    f = fresh('f', Str)
    st.assume(Implies(V.is_obj(d), FA([f], FHAS(V.cls(d))[f] == (V.om(d)[f] != V.absent), V.om(d)[f], FHAS(V.cls(d))[f])))
    E.inst = (d, w)
    wk = ex.newdoc(st, V.dict(w))

    def ensures(s, r):
        y = ex.to_V(s, r)
        if aspect == 'type':
            return [('keeps the class, and fields of the declared types', E.kept(d, y))]
        return [('replaces exactly the values given', replbody(d, w, y))]
    t.check_fn(ex, st, f'{S}:_replace_weak_refs', [d, wk, fresh('fpath', Str), Maybe(E.nods, E.ds), IG], ensures, lambda s, x: [])


def is_optional(t):
    ex = t.engine(axioms=axioms('used'))
    st = St()
    install(t, ex)
    T = z3.Const('T', Ty)
    st.assume(wellformed(T))
    t.check_fn(ex, st, f'{S}:is_optional', [T], lambda s, r: [('tells optional types apart', tobool(r) == Ty.is_TOpt(T))])


def loading(t, aspect):
    """loads and load: the parsed document goes to from_dict unchanged, under the rules asked for."""
    for name in ('loads', 'load'):
        E = Env(t, aspect, set())
        ex, st = E.ex, E.st
        T, doc, text = z3.Const('T', Ty), z3.Const('doc', V), fresh('text', Str)
        st.assume(wellformed(T), PURE(doc), plain(doc))

        def parse(ex, s, a, k, n, what=name):
            x = a[0] if a else None
            ok = isz(x) and x.sort() == Str and x.eq(text) and ex.truth(s, k.get('preserve_class_names', False)) is True
            ex.oblige(s, 'parses what it was given, keeping the names of structs', z3.BoolVal(bool(ok)))
            s2 = s.fork()
            return [(s, doc), (s2, Exc(bt('FileNotFoundError' if what == 'load' else 'ValueError'), node=n))]
        ex.ext['pyron.' + name] = parse
        seen = ex.contracts[f'{S}:from_dict']

        def fd(ex, st, fn, a, k, n, seen=seen):
            out = []
            for s, e in ex.bind_args(st.fork(), fn, a, k, n):
                if not isinstance(e, Exc):
                    ex.oblige(s, 'loads the type it was asked for', e['clz'] == T)
                    ex.oblige(s, 'loads the document it parsed', ex.to_V(s, e['value']) == doc)
            return seen(ex, st, fn, a, k, n)
        ex.contracts[f'{S}:from_dict'] = fd

        def ensures(s, r):
            rv = ex.to_V(s, r)
            return [('returns what was loaded', OK(T, rv) if aspect == 'type' else USED(T, doc, rv))]
        t.check_fn(ex, st, f'{S}:{name}', [T, text, Maybe(E.nods, E.ds), IG], ensures, lambda s, x: [])

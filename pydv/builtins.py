"""Meaning of the Python builtins and methods the verified code uses (trusted: the language semantics)."""
import z3
from . import univ as u
from .univ import V, Ty, Str, fresh, lit, box
from .vals import *
from .front import Ext
from . import ex as X
from .ex import BASE_EXT as B, IterSpec, ExcVal, isz, isnumt, toz, tobool, toStr, default_of

And, Or, Not, Implies, If, Select, Store = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select, z3.Store
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def reg(*names):
    def d(f):
        for n in names:
            B[n] = f
        return f
    return d


def zn(n):
    return z3.IntVal(n) if isinstance(n, int) else n


@reg('builtins.len')
def _len(ex, st, args, kw, node):
    v = ex.deref(st, args[0])
    if isinstance(v, Maybe):
        out = []
        for s, isn in ex.split(st, v.isnone):
            out += ex.raise_(s, 'TypeError', node) if isn else _len(ex, s, [v.val], kw, node)
        return out
    if isinstance(v, str):
        return [(st, len(v))]
    if isinstance(v, Tup):
        return [(st, len(v.items))]
    if isinstance(v, Seq):
        return [(st, v.n)]
    if isinstance(v, SetVal) and getattr(v, 'gen', None):
        if not hasattr(v, 'count'):
            v.count = fresh('size', IntS)
        st.assume(v.count >= 0, (v.count > 0) == ex.truth(st, v))
        return [(st, v.count)]
    if ex.as_map(st, v) is not None:
        return [(st, ex.as_map(st, v).n)]
    if isinstance(v, Ref):
        h = st.heap[v.a]
        if isinstance(h, (HList, HDict, HSet)):
            return [(st, len(h.items))]
        if isinstance(h, HSeq):
            return [(st, h.seq.n)]
        if isinstance(h, HObj) and isinstance(h.cls, ClassVal):
            f, _ = h.cls.find('__len__')
            if f is not None:
                return ex.call(st, Bound(f, v), [], {}, node)
        return ex.raise_(st, 'TypeError', node)
    if isinstance(v, DocPtr):
        v = ex.doc_read(st, v)
    if isz(v) and v.sort() == Str:
        n = strlen(v)
        st.assume(n >= 0)
        st.assume((n == 0) == (v == lit('')))
        return [(st, n)]
    if isz(v) and v.sort() == V:
        out = []
        for s, ok in ex.split(st, Or(V.is_lst(v), V.is_tup(v), V.is_dict(v), V.is_str(v))):
            if not ok:
                out += ex.raise_(s, 'TypeError', node)
                continue
            sl = strlen(V.s(v))
            s.assume(Implies(V.is_str(v), And(sl >= 0, (sl == 0) == (V.s(v) == lit('')))))
            out.append((s, If(V.is_lst(v), V.ln(v), If(V.is_tup(v), V.tn(v), If(V.is_dict(v), u.klen(V.m(v)), sl)))))
        return out
    if v is None or isinstance(v, (int, float)):
        return ex.raise_(st, 'TypeError', node)
    raise Unsupported(f'len of {v!r}')


strlen = u.strfn('strlen', Str, IntS)


@reg('builtins.range')
def _range(ex, st, args, kw, node):
    a = [ex.unwrap(st, x) for x in args]
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    else:
        lo, hi, step = a[0], a[1], (a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, step)):
        return [(st, Tup(list(range(lo, hi, step))))]
    if any(isz(x) and x.sort() == V for x in (lo, hi)):
        raise Unsupported('range over a dynamic value')
    if step != 1:
        if step != -1:
            raise Unsupported('range with a step')
        n = z3.simplify(If(toz(lo) > toz(hi), toz(lo) - toz(hi), z3.IntVal(0)))
        n = ex.simp_under(st, n, [toz(lo) - toz(hi)])
        return [(st, IterSpec(n, lambda s, i: z3.simplify(toz(lo) - toz(i))))]
    d = z3.simplify(toz(hi) - toz(lo))
    n = ex.simp_under(st, z3.simplify(If(d > 0, d, z3.IntVal(0))), [d, z3.IntVal(0)])
    return [(st, IterSpec(n, lambda s, i: z3.simplify(toz(lo) + toz(i))))]


def as_iter(ex, st, v, node):
    r = ex.iterate(st, v, node)
    if r[0] == 'c':
        return len(r[1]), (lambda s, i: r[1][i]), r[1]
    return r[1], r[2], None


@reg('builtins.enumerate')
def _enumerate(ex, st, args, kw, node):
    n, el, conc = as_iter(ex, st, args[0], node)
    off = args[1] if len(args) > 1 else kw.get('start', 0)
    if conc is not None:
        return [(st, Tup([Tup([i + off if isinstance(off, int) else z3.IntVal(i) + off, x]) for i, x in enumerate(conc)]))]
    return [(st, IterSpec(n, lambda s, i: Tup([i if isinstance(off, int) and off == 0 else z3.simplify(toz(i) + toz(off)), el(s, i)])))]


@reg('builtins.zip')
def _zip(ex, st, args, kw, node):
    its = [as_iter(ex, st, a, node) for a in args]
    if all(c is not None for _, _, c in its):
        return [(st, Tup([Tup(t) for t in zip(*[c for _, _, c in its])]))]
    n = zn(its[0][0])
    for m, _, _ in its[1:]:
        m = zn(m)
        n = n if n.eq(m) or ex.proves(st, n <= m) else m if ex.proves(st, m <= n) else If(n <= m, n, m)
    els = []
    for (m, el, c) in its:
        if c is not None:
            q = ex.items_seq(st, c, 'list')
            els.append(lambda s, i, q=q: q.at(i))
        else:
            els.append(el)
    return [(st, IterSpec(n, lambda s, i: Tup([e(s, i) for e in els])))]


@reg('builtins.reversed')
def _reversed(ex, st, args, kw, node):
    n, el, conc = as_iter(ex, st, args[0], node)
    if conc is not None:
        return [(st, Tup(list(reversed(conc))))]
    return [(st, IterSpec(n, lambda s, i: el(s, z3.simplify(zn(n) - 1 - toz(i)))))]


def minmax(ex, st, args, kw, node, ismin):
    if len(args) == 1:
        q = ex.iterate(st, args[0], node)
        if q[0] == 'c':
            items = q[1]
            if not items:
                if 'default' in kw:
                    return [(st, kw['default'])]
                return ex.raise_(st, 'ValueError', node)
        else:
            return minmax_sym(ex, st, q, kw, node, ismin)
    else:
        items = args
    if 'key' in kw:
        raise Unsupported('min/max with key')
    items = [ex.unwrap(st, x) for x in items]
    if all(isinstance(x, (int, float, str)) for x in items):
        return [(st, (min if ismin else max)(items))]
    if all(isinstance(x, (EnumMember, Choice)) for x in items):
        import ast as A
        cur = [(st, items[0])]
        for x in items[1:]:
            nxt = []
            for s, best in cur:
                for s2, c in ex.bind(ex.compare(s, A.Lt() if ismin else A.Gt(), x, best, node), lambda s3, c: [(s3, c)]):
                    if isinstance(c, Exc):
                        nxt.append((s2, c))
                        continue
                    for s4, b in ex.split(s2, ex.truth(s2, c)):
                        nxt.append((s4, x if b else best))
            cur = nxt
        return cur
    if not all(isnumt(x) for x in items):
        raise Unsupported('min/max of these values')
    r = toz(items[0])
    for x in items[1:]:
        x = toz(x)
        r = If(x < r, x, r) if ismin else If(x > r, x, r)
    return [(st, r)]


def minmax_sym(ex, st, q, kw, node, ismin):
    _, n, el = q
    if 'key' in kw:
        raise Unsupported('min/max with key over a symbolic sequence')
    n = zn(n)
    i = fresh('i', IntS)
    e = el(st, i)
    h = ex.ext.get('minmax')
    if h is not None:
        r = h(ex, st, n, el, kw, node, ismin)
        if r is not None:
            return r
    if not isnumt(e):
        raise Unsupported('min/max over these values')
    out = []
    for s, empty in ex.split(st, n == 0):
        if empty:
            out += [(s, kw['default'])] if 'default' in kw else ex.raise_(s, 'ValueError', node)
            continue
        r = fresh('best', toz(e).sort())
        w = fresh('arg', IntS)
        s.assume(And(0 <= w, w < n, toz(el(s, w)) == r))
        pats = [p for p in [e] if isz(p) and not z3.is_const(p)]
        s.assume(z3.ForAll([i], Implies(And(0 <= i, i < n), (r <= toz(e)) if ismin else (r >= toz(e))),
                           **({'patterns': pats} if pats else {})))
        out.append((s, r))
    return out


@reg('builtins.min')
def _min(ex, st, args, kw, node):
    return minmax(ex, st, args, kw, node, True)


@reg('builtins.max')
def _max(ex, st, args, kw, node):
    return minmax(ex, st, args, kw, node, False)


def allany(ex, st, args, node, isall):
    q = ex.iterate(st, args[0], node)
    if q[0] == 'c':
        cs = [ex.truth(st, x) for x in q[1]]
        if all(isinstance(c, bool) for c in cs):
            return [(st, all(cs) if isall else any(cs))]
        cs = [tobool(c) for c in cs]
        return [(st, And(cs) if isall else Or(cs))]
    _, n, el = q
    b = fresh('allany', BoolS)
    i = fresh('i', IntS)
    t = tobool(ex.truth(st, el(st, i)))
    w = fresh('wit', IntS)
    tw = z3.substitute(t, (i, w))
    pats = select_pats(t, i)
    r = And(0 <= i, i < n)
    rw = And(0 <= w, w < n)
    kwp = {'patterns': pats} if pats else {}
    if isall:
        st.assume(Implies(b, z3.ForAll([i], Implies(r, t), **kwp)))
        st.assume(Implies(Not(b), And(rw, Not(tw))))
    else:
        st.assume(Implies(Not(b), z3.ForAll([i], Implies(r, Not(t)), **kwp)))
        st.assume(Implies(b, And(rw, tw)))
    return [(st, b)]


def select_pats(t, i):
    """Subterms array[i] or f(i) of t as alternative patterns."""
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and any(c.eq(i) for c in x.children()) and (
                    z3.is_select(x) or x.decl().kind() == z3.Z3_OP_UNINTERPRETED) and not any(x.eq(p) for p in out):
                out.append(x)
            stack.extend(x.children())
    return out


@reg('builtins.all')
def _all(ex, st, args, kw, node):
    return allany(ex, st, args, node, True)


@reg('builtins.any')
def _any(ex, st, args, kw, node):
    return allany(ex, st, args, node, False)


@reg('builtins.print', 'builtins.breakpoint')
def _print(ex, st, args, kw, node):
    return [(st, None)]


def isinst_v(v, cls):
    """isinstance of a V term for a builtin class name."""
    return {'bool': lambda: V.is_bool(v), 'int': lambda: Or(V.is_int(v), V.is_bool(v)), 'float': lambda: V.is_flt(v),
            'str': lambda: V.is_str(v), 'list': lambda: V.is_lst(v), 'tuple': lambda: Or(V.is_tup(v), V.is_nt(v)),
            'dict': lambda: V.is_dict(v), 'NoneType': lambda: V.is_none(v), 'object': lambda: z3.BoolVal(True),
            'type': lambda: V.is_ty(v), 'set': lambda: z3.BoolVal(False), 'bytes': lambda: z3.BoolVal(False),
            'frozenset': lambda: z3.BoolVal(False)}[cls]()


def pytype(ex, st, v):
    """Class of a concrete-kind value, or None if symbolic."""
    v = ex.deref(st, v)
    for k, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (bytes, 'bytes'), (type(None), 'NoneType')):
        if isinstance(v, k):
            return bt(n)
    if isz(v):
        return {IntS: bt('int'), RealS: bt('float'), BoolS: bt('bool'), Str: bt('str')}.get(v.sort())
    if isinstance(v, Tup):
        return bt('tuple')
    if isinstance(v, Seq):
        return bt('tuple' if v.kind == 'tuple' else 'list')
    if isinstance(v, SetVal):
        return bt('set')
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, Rec):
        return v.cls
    if isinstance(v, ExcVal):
        return v.cls
    if isinstance(v, Ref):
        h = st.heap[v.a]
        if isinstance(h, (HList, HSeq)):
            return bt('list')
        if isinstance(h, HDict):
            return bt('dict')
        if isinstance(h, (HSet, HSSet)):
            return bt('set')
        if isinstance(h, HObj):
            return h.cls
    return None


@reg('builtins.isinstance')
def _isinstance(ex, st, args, kw, node):
    v, c = args
    h = ex.ext.get('isinstance')
    if h is not None:
        r = h(ex, st, v, c)
        if r is not None:
            return r
    c = ex.deref(st, c)
    if isinstance(c, Tup):
        cur = [(st, False)]
        for x in c.items:
            nxt = []
            for s, acc in cur:
                if acc is True:
                    nxt.append((s, True))
                    continue
                for s2, r in _isinstance(ex, s, [v, x], {}, node):
                    nxt.append((s2, r if isinstance(r, Exc) or acc is False or r is True else acc if r is False else Or(tobool(acc), tobool(r))))
            cur = nxt
        return cur
    v = ex.deref(st, v)
    if isinstance(v, Maybe):
        out = []
        for s, isn in ex.split(st, v.isnone):
            out += _isinstance(ex, s, [None if isn else v.val, c], {}, node)
        return out
    if isinstance(v, Choice):
        out = []
        for s, o in ex.resolve_choice(st, v):
            out += _isinstance(ex, s, [o, c], {}, node)
        return out
    if isinstance(v, DocPtr):
        v = ex.doc_read(st, v)
    if isz(v) and v.sort() == V and isinstance(c, BType):
        return [(st, isinst_v(v, c.name))]
    t = pytype(ex, st, v)
    if t is not None and isinstance(c, (BType, ClassVal)) and isinstance(t, (BType, ClassVal)):
        return [(st, c in t.mro())]
    if isinstance(v, (ClassVal, BType)) and isinstance(c, (BType, ClassVal)):
        if c.name == 'type':
            return [(st, True)]
        if c.name == 'EnumMeta':
            return [(st, isinstance(v, ClassVal) and v.isenum)]
        return [(st, c.name == 'object')]
    raise Unsupported(f'isinstance({v!r}, {c!r})')


@reg('builtins.issubclass')
def _issubclass(ex, st, args, kw, node):
    v, c = args
    h = ex.ext.get('issubclass')
    if h is not None:
        r = h(ex, st, v, c)
        if r is not None:
            return r
    if isinstance(v, (BType, ClassVal)) and isinstance(c, (BType, ClassVal)):
        return [(st, c in v.mro())]
    raise Unsupported(f'issubclass({v!r}, {c!r})')


@reg('builtins.hasattr')
def _hasattr(ex, st, args, kw, node):
    v, name = args
    h = ex.ext.get('hasattr')
    if h is not None:
        r = h(ex, st, v, name)
        if r is not None:
            return r
    v = ex.deref(st, v)
    if isinstance(v, DocPtr):
        v = ex.doc_read(st, v)
    if isinstance(name, str) and not isz(v):
        out = []
        for s, r in ex.getattr(st.fork(), v, name, node):
            out.append((s, not isinstance(r, Exc)))
        return out
    raise Unsupported(f'hasattr of {v!r}')


@reg('builtins.getattr')
def _getattr(ex, st, args, kw, node):
    v, name = args[:2]
    h = ex.ext.get('getattr')
    if h is not None:
        r = h(ex, st, v, name, *args[2:])
        if r is not None:
            return r
    if isinstance(name, str):
        out = []
        for s, r in ex.getattr(st, v, name, node):
            if isinstance(r, Exc) and len(args) > 2 and r.cls is bt('AttributeError'):
                out.append((s, args[2]))
            else:
                out.append((s, r))
        return out
    raise Unsupported('getattr with a symbolic name')


@reg('builtins.setattr')
def _setattr(ex, st, args, kw, node):
    v, name, w = args
    h = ex.ext.get('setattr')
    if h is not None:
        r = h(ex, st, v, name, w)
        if r is not None:
            return r
    if isinstance(name, str):
        return ex.setattr(st, v, name, w, node)
    raise Unsupported('setattr with a symbolic name')


@reg('builtins.callable')
def _callable(ex, st, args, kw, node):
    return [(st, isinstance(args[0], (FnVal, Bound, Builtin, Lam, ClassVal, BType, Ext)))]


@reg('builtins.repr', 'method.__repr__')
def _repr(ex, st, args, kw, node):
    return [(st, fresh('text', Str))]


@reg('type.type')
def _type(ex, st, args, kw, node):
    h = ex.ext.get('typeof')
    if h is not None:
        r = h(ex, st, args[0])
        if r is not None:
            return r
    t = pytype(ex, st, args[0])
    if t is None:
        raise Unsupported(f'type({args[0]!r})')
    return [(st, t)]


@reg('type.list', 'type.tuple')
def _list(ex, st, args, kw, node, kind=None):
    kind = node.func.id if kind is None and hasattr(node, 'func') and hasattr(node.func, 'id') else (kind or 'list')
    if not args:
        return [(st, Tup([]) if kind == 'tuple' else ex.alloc(st, HList(())))]
    q = ex.iterate(st, args[0], node)
    if q[0] == 'c':
        return [(st, Tup(q[1]) if kind == 'tuple' else ex.alloc(st, HList(q[1])))]
    _, n, el = q
    src = ex.deref(st, args[0])
    seq = None
    try:
        seq = ex.to_seq(st, src)
    except Unsupported:
        pass
    if seq is None:
        i = fresh('i', IntS)
        e = el(st, i)
        shape = ex.shape_of(st, e)
        ls = ex.flatten(st, e, shape)
        leaves = [z3.Lambda([i], l) for l in ls]
        seq = Seq(n, shape, leaves, 0, kind)
    seq = Seq(seq.n, seq.shape, seq.leaves, seq.off, kind)
    return [(st, seq if kind == 'tuple' else ex.alloc(st, HSeq(seq)))]


B['type.list'] = lambda ex, st, a, k, n: _list(ex, st, a, k, n, 'list')
B['type.tuple'] = lambda ex, st, a, k, n: _list(ex, st, a, k, n, 'tuple')


@reg('type.set')
def _set(ex, st, args, kw, node):
    if not args:
        return [(st, ex.alloc(st, HSet(())))]
    q = ex.iterate(st, args[0], node)
    if q[0] == 'c':
        return [(st, ex.alloc(st, HSet(q[1])))]
    src = ex.deref(st, args[0])
    mk = getattr(src, 'mapkeys', None) or ex.as_map(st, src)
    if mk is not None and mk.ks == Str:
        return [(st, ex.alloc(st, HSSet(mk.has)))]
    d = ex.doc_read(st, src) if isinstance(src, DocPtr) else src
    if isz(d) and d.sort() == V and ex.proves(st, V.is_dict(d)):
        k = fresh('k', Str)
        return [(st, SetVal(z3.Lambda([k], V.m(d)[k] != V.absent)))]
    i = fresh('i', IntS)
    e = q[2](st, i)
    if isz(e):
        x = fresh('x', e.sort())
        v = SetVal(z3.Lambda([x], z3.Exists([i], And(0 <= i, i < q[1], u.pyeq(e, x) if e.sort() == V else e == x))))
        v.gen = (q[1], i, e, z3.BoolVal(True))
        return [(st, v)]
    raise Unsupported('set of symbolic elements')


@reg('type.dict')
def _dict(ex, st, args, kw, node):
    if not args:
        return [(st, ex.alloc(st, HDict(kw.items())))]
    if kw:
        raise Unsupported('dict(...) with keywords')
    src = ex.deref(st, args[0])
    if isinstance(src, Ref) and isinstance(st.heap[src.a], HDict):
        return [(st, ex.alloc(st, HDict(st.heap[src.a].items)))]
    if ex.as_map(st, src) is not None:
        return [(st, ex.alloc(st, HMap(ex.as_map(st, src))))]
    if isinstance(src, DocPtr):
        return [(st, ex.newdoc(st, ex.doc_read(st, src)))]
    raise Unsupported('dict(...)')


@reg('type.str')
def _str(ex, st, args, kw, node):
    if not args:
        return [(st, '')]
    v = ex.deref(st, args[0])
    if isinstance(v, (str, int)) or v is None:
        return [(st, str(v))]
    return [(st, ex.fmt(st, v))]


@reg('type.bool')
def _bool(ex, st, args, kw, node):
    return [(st, ex.truth(st, args[0]) if args else False)]


isint_str = z3.Function('isint_str', Str, BoolS)     # int(s) accepts s
str2int = z3.Function('str2int', Str, IntS)


@reg('type.float')
def _float(ex, st, args, kw, node):
    v = ex.unwrap(st, args[0])
    if isinstance(v, (int, float)):
        return [(st, float(v))]
    if isinstance(v, str):
        try:
            return [(st, float(v))]
        except ValueError:
            return ex.raise_(st, 'ValueError', node)
    if isnumt(v):
        z = toz(v)
        return [(st, z3.ToReal(z) if z.sort() == IntS else z)]
    if isz(v) and v.sort() == Str:
        out = []
        for s, ok in ex.split(st, u.isnum(v)):
            out += [(s, u.str2num(v))] if ok else ex.raise_(s, 'ValueError', node)
        return out
    if isz(v) and v.sort() == V:
        out = []
        for s, n in ex.split(st, u.is_num(v)):
            if n:
                out.append((s, u.num(v)))
                continue
            for s2, isS in ex.split(s, V.is_str(v)):
                if isS:
                    out += _float(ex, s2, [V.s(v)], {}, node)
                else:
                    out += ex.raise_(s2, 'TypeError', node)
        return out
    return ex.raise_(st, 'TypeError', node)


def trunc(r):
    return If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


@reg('type.int')
def _int(ex, st, args, kw, node):
    v = ex.unwrap(st, args[0])
    if isinstance(v, (int, float)):
        return [(st, int(v))]
    if isinstance(v, str):
        try:
            return [(st, int(v))]
        except ValueError:
            return ex.raise_(st, 'ValueError', node)
    if isnumt(v):
        z = toz(v)
        return [(st, trunc(z) if z.sort() == RealS else z)]
    if isz(v) and v.sort() == Str:
        out = []
        for s, ok in ex.split(st, isint_str(v)):
            out += [(s, str2int(v))] if ok else ex.raise_(s, 'ValueError', node)
        return out
    if isz(v) and v.sort() == V:
        out = []
        for s, n in ex.split(st, u.is_num(v)):
            if n:
                out.append((s, If(V.is_int(v), V.i(v), If(V.is_bool(v), If(V.b(v), z3.IntVal(1), z3.IntVal(0)), trunc(V.r(v))))))
                continue
            for s2, isS in ex.split(s, V.is_str(v)):
                if isS:
                    out += _int(ex, s2, [V.s(v)], {}, node)
                else:
                    out += ex.raise_(s2, 'TypeError', node)
        return out
    return ex.raise_(st, 'TypeError', node)


@reg('builtins.abs')
def _abs(ex, st, args, kw, node):
    v = ex.unwrap(st, args[0])
    if isinstance(v, (int, float)):
        return [(st, abs(v))]
    z = toz(v)
    return [(st, If(z < 0, -z, z))]


# ---- methods -------------------------------------------------------------------------------------
@reg('method.append')
def _append(ex, st, args, kw, node):
    o, x = args
    h = st.heap[o.a] if isinstance(o, Ref) else None
    if isinstance(h, HList):
        st.heap[o.a] = HList(h.items + (x,))
        return [(st, None)]
    if isinstance(h, HSeq):
        st.heap[o.a] = HSeq(ex.seq_snoc(st, h.seq, x))
        return [(st, None)]
    raise Unsupported('append')


@reg('method.extend')
def _extend(ex, st, args, kw, node):
    o, x = args
    q = ex.iterate(st, x, node)
    if q[0] == 'c':
        for y in q[1]:
            _append(ex, st, [o, y], {}, node)
        return [(st, None)]
    raise Unsupported('extend with a symbolic sequence')


@reg('method.insert')
def _insert(ex, st, args, kw, node):
    o, i, x = args
    h = st.heap[o.a] if isinstance(o, Ref) else None
    if isinstance(h, HList) and isinstance(i, int):
        it = list(h.items)
        it.insert(i, x)
        st.heap[o.a] = HList(it)
        return [(st, None)]
    raise Unsupported('insert')


@reg('method.add')
def _add(ex, st, args, kw, node):
    o, x = args
    h = st.heap[o.a] if isinstance(o, Ref) else None
    x = ex.unwrap(st, x)
    if isinstance(h, HSet):
        if ex.any_eq(st, x, h.items) is not True:
            st.heap[o.a] = HSet(h.items + (x,))
        return [(st, None)]
    if isinstance(h, HSSet):
        st.heap[o.a] = HSSet(Store(h.arr, toStr(x), True))
        return [(st, None)]
    raise Unsupported('set.add')


@reg('method.copy')
def _copy(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref):
        h = st.heap[o.a]
        if isinstance(h, (HList, HDict, HSet, HSeq, HSSet, HMap)):
            return [(st, ex.alloc(st, h))]
    if isinstance(o, MapVal):
        return [(st, ex.alloc(st, HMap(o)))]
    if isinstance(o, DocPtr):
        return [(st, ex.newdoc(st, ex.doc_read(st, o)))]
    raise Unsupported('copy')


@reg('method.get')
def _get(ex, st, args, kw, node):
    o, k = args[:2]
    d = args[2] if len(args) > 2 else kw.get('default')
    o = ex.deref(st, o)
    out = []
    for s, has in ex.contains(st, k, o, node):
        if isinstance(has, Exc):
            out.append((s, has))
            continue
        for s2, b in ex.split(s, has):
            out += ex.getitem(s2, o, k, node) if b else [(s2, d)]
    return out


@reg('method.pop')
def _pop(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref) and isinstance(st.heap[o.a], HList):
        items = st.heap[o.a].items
        i = args[1] if len(args) > 1 else -1
        if not isinstance(i, int):
            raise Unsupported('pop')
        if not -len(items) <= i < len(items):
            return ex.raise_(st, 'IndexError', node)
        it = list(items)
        x = it.pop(i)
        st.heap[o.a] = HList(it)
        return [(st, x)]
    k = args[1]
    out = []
    for s, has in ex.contains(st, k, o, node):
        if isinstance(has, Exc):
            out.append((s, has))
            continue
        for s2, b in ex.split(s, has):
            if b:
                for s3, v in ex.getitem(s2, o, k, node):
                    if isinstance(v, Exc):
                        out.append((s3, v))
                        continue
                    for s4, r in ex.delitem(s3, o, k, node):
                        out.append((s4, r if isinstance(r, Exc) else v))
            elif len(args) > 2:
                out.append((s2, args[2]))
            else:
                out += ex.raise_(s2, 'KeyError', node)
    return out


@reg('method.setdefault')
def _setdefault(ex, st, args, kw, node):
    o, k = args[:2]
    d = args[2] if len(args) > 2 else None
    out = []
    for s, has in ex.contains(st, k, o, node):
        if isinstance(has, Exc):
            out.append((s, has))
            continue
        for s2, b in ex.split(s, has):
            if b:
                out += ex.getitem(s2, o, k, node)
            else:
                for s3, r in ex.setitem(s2, o, k, d, node):
                    out += [(s3, r)] if isinstance(r, Exc) else ex.getitem(s3, o, k, node)
    return out


@reg('method.clear')
def _clear(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref):
        h = st.heap[o.a]
        if isinstance(h, HDict):
            st.heap[o.a] = HDict(())
            return [(st, None)]
        if isinstance(h, HMap):
            m = h.m
            st.heap[o.a] = HMap(MapVal(m.ks, z3.K(m.ks, z3.BoolVal(False)), m.shape, m.leaves, z3.IntVal(0), m.keys))
            return [(st, None)]
        if isinstance(h, (HList, HSeq)):
            st.heap[o.a] = HList(())
            return [(st, None)]
    if isinstance(o, DocPtr):
        p = ex.doc_norm(st, o)
        h = st.heap[p.a]
        if not p.segs and not h.moved and ex.proves(st, V.is_dict(h.root)):
            # (what was inside is not looked at again)
            st.heap[p.a] = HDoc(V.dict(u.EMPTY_M))
            st.muts[p.a] = st.muts.get(p.a, ()) + (('*', None),)
            return [(st, None)]
    raise Unsupported('clear')


@reg('method.update')
def _update(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref) and len(args) == 2:
        return [(s, None) for s in ex.dict_update(st, o, args[1])]
    raise Unsupported('update')


def dict_view(ex, st, o, what, node):
    o = ex.deref(st, o)
    h = ex.ext.get('dict_view')
    if h is not None:
        r = h(ex, st, o, what)
        if r is not None:
            return r
    m = ex.as_map(st, o)
    if m is not None:
        f = {'keys': lambda s2, i: m.keys[toz(i)], 'values': lambda s2, i: m.at(m.keys[toz(i)]),
             'items': lambda s2, i: Tup([m.keys[toz(i)], m.at(m.keys[toz(i)])])}[what]
        it = IterSpec(m.n, f)
        if what == 'keys':
            it.mapkeys = m
        return [(st, it)]
    if isinstance(o, Ref):
        hd = st.heap[o.a]
        if isinstance(hd, HDict):
            return [(st, Tup([k if what == 'keys' else v if what == 'values' else Tup([k, v]) for k, v in hd.items]))]
    if isinstance(o, DocPtr):
        o = ex.doc_read(st, o)
    if isz(o) and o.sort() == V:
        out = []
        for s, isd in ex.split(st, V.is_dict(o)):
            if not isd:
                out += ex.raise_(s, 'AttributeError', node)
                continue
            m = V.m(o)
            f = {'keys': lambda s2, i: u.kat(m, toz(i)), 'values': lambda s2, i: Select(m, u.kat(m, toz(i))),
                 'items': lambda s2, i: Tup([u.kat(m, toz(i)), Select(m, u.kat(m, toz(i)))])}[what]
            n = u.klen(m)
            s.assume(n >= 0)
            it = IterSpec(n, f)
            if what == 'keys':
                it.keyset = m
            out.append((s, it))
        return out
    raise Unsupported(f'{what} of {o!r}')


for _w in ('keys', 'values', 'items'):
    B['method.' + _w] = (lambda w: lambda ex, st, a, k, n: dict_view(ex, st, a[0], w, n))(_w)


# strings: concrete ones are computed, symbolic ones are uninterpreted functions of their inputs
def strargs(xs):
    return all(isinstance(x, (str, int, type(None))) and not isinstance(x, bool) for x in xs)


def strmeth(name, outs):
    def f(ex, st, args, kw, node):
        o = ex.unwrap(st, args[0])
        a = [ex.unwrap(st, x) for x in args[1:]]
        if o is None:
            return ex.raise_(st, 'AttributeError', node)
        if isinstance(o, str) and strargs(a) and not kw:
            r = getattr(o, name)(*a)
            return [(st, ex.alloc(st, HList(r)) if isinstance(r, list) else r)]
        if isz(o) and o.sort() == V:
            res = []
            for s, isS in ex.split(st, V.is_str(o)):
                res += f(ex, s, [V.s(o)] + a, kw, node) if isS else ex.raise_(s, 'AttributeError', node)
            return res
        if not (isinstance(o, str) or isz(o) and o.sort() == Str):
            return ex.raise_(st, 'AttributeError', node)
        if name == 'split' and set(kw) <= {'sep', 'maxsplit'}:
            a += [ex.unwrap(st, kw[k]) for k in ('sep', 'maxsplit') if k in kw]
            kw = {}
        if kw:
            raise Unsupported(f'str.{name} with keywords')
        ss, zs, tag = [Str], [toStr(o)], name
        for x in a:
            if isinstance(x, str) or isz(x) and x.sort() == Str:
                ss.append(Str)
                zs.append(toStr(x))
            elif isinstance(x, int):
                tag += f':{x}'
            elif isz(x) and x.sort() == IntS:
                ss.append(IntS)
                zs.append(x)
            else:
                raise Unsupported(f'str.{name}')
        h = ex.ext.get('str.' + name)
        if h is not None:
            r = h(ex, st, zs, a)
            if r is not None:
                return r
        if isinstance(outs, str):
            n = u.strfn(f'str.{tag}.n', *ss, IntS)(*zs)
            arr = u.strfn(f'str.{tag}.a', *ss, u.SA)(*zs)
            lo = 1 if len(zs) > 1 else 0
            st.assume(n >= lo)
            if name == 'split' and len(zs) == 2:
                # at least one separator <=> more than one part
                st.assume(u.strfn('substr', Str, Str, BoolS)(zs[1], zs[0]) == (n >= 2))
                if ':1' in tag:
                    st.assume(n <= 2)
                    st.assume(Implies(n == 2, zs[0] == u.cat(arr[0], u.cat(zs[1], arr[1]))))
                    st.assume(Implies(n == 1, arr[0] == zs[0]))
                    st.assume(Not(u.strfn('substr', Str, Str, BoolS)(zs[1], arr[0])))
            return [(st, ex.alloc(st, HSeq(Seq(n, SLeaf(Str), [arr], 0, 'list'))))]
        return [(st, u.strfn(f'str.{tag}', *ss, outs)(*zs))]
    B['method.' + name] = f


for _n in ('split', 'rsplit', 'splitlines'):
    strmeth(_n, 'list')
for _n in ('startswith', 'endswith', 'isdigit', 'isidentifier', 'isnumeric', 'isalpha'):
    strmeth(_n, BoolS)
for _n in ('replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'ljust', 'rjust', 'zfill'):
    strmeth(_n, Str)


@reg('method.partition')
def _partition(ex, st, args, kw, node):
    o, sep = ex.unwrap(st, args[0]), ex.unwrap(st, args[1])
    if isinstance(o, str) and isinstance(sep, str):
        return [(st, Tup(list(o.partition(sep))))]
    out = []
    for s, r in B['method.split'](ex, st, [o, sep, 1], {}, node):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        q = ex.to_seq(s, r)
        for s2, two in ex.split(s, q.n >= 2):
            out.append((s2, Tup([q.leaves[0][0], sep, q.leaves[0][1]]) if two else Tup([o, '', ''])))
    return out


@reg('method.join')
def _join(ex, st, args, kw, node):
    sep, xs = args
    q = ex.iterate(st, xs, node)
    if q[0] == 'c' and isinstance(sep, str) and all(isinstance(x, str) for x in q[1]):
        return [(st, sep.join(q[1]))]
    src = ex.deref(st, xs)
    src = st.heap[src.a].seq if isinstance(src, Ref) and isinstance(st.heap[src.a], HSeq) else src
    if q[0] == 's' and isinstance(src, Seq) and getattr(src, 'defn', None) and src.shape.sorts() == [Str]:
        return [(st, u.strfn('str.join', Str, IntS, u.SA, Str)(toStr(sep), toz(q[1]), src.defn[0]))]
    if q[0] == 's':
        i = fresh('i', IntS)
        e = q[2](st, i)
        if isz(e) and e.sort() == Str and z3.is_select(e) and e.arg(1).eq(i):
            return [(st, u.strfn('str.join', Str, IntS, u.SA, Str)(toStr(sep), q[1], e.arg(0)))]
    return [(st, fresh('text', Str))]


@reg('method.format')
def _format(ex, st, args, kw, node):
    return [(st, fresh('text', Str))]


@reg('method.discard')
def _discard(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref) and isinstance(st.heap[o.a], HSSet) and st.heap[o.a].arr.sort().domain() == Str:
        st.heap[o.a] = HSSet(Store(st.heap[o.a].arr, toStr(ex.unwrap(st, args[1])), False))
        return [(st, None)]
    raise Unsupported('discard')


@reg('method.index', 'method.count')
def _index(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref) and isinstance(st.heap[o.a], HList) or isinstance(o, Tup):
        items = o.items if isinstance(o, Tup) else st.heap[o.a].items
        for j, x in enumerate(items):
            c = ex.eq(st, x, args[1])
            if c is True:
                return [(st, j)]
            if c is not False:
                raise Unsupported('index')
        return ex.raise_(st, 'ValueError', node)
    raise Unsupported('index/count')


@reg('method.remove')
def _remove(ex, st, args, kw, node):
    o = ex.deref(st, args[0])
    if isinstance(o, Ref) and isinstance(st.heap[o.a], (HList, HSet)):
        h = st.heap[o.a]
        for j, x in enumerate(h.items):
            c = ex.eq(st, x, args[1])
            if c is True:
                st.heap[o.a] = type(h)(h.items[:j] + h.items[j + 1:])
                return [(st, None)]
            if c is not False:
                raise Unsupported('remove')
        return ex.raise_(st, 'ValueError' if isinstance(h, HList) else 'KeyError', node)
    if isinstance(o, Ref) and isinstance(st.heap[o.a], HSSet) and st.heap[o.a].arr.sort().domain() == Str:
        k, out = toStr(ex.unwrap(st, args[1])), []
        for s, b in ex.split(st, st.heap[o.a].arr[k]):
            if b:
                s.heap[o.a] = HSSet(Store(s.heap[o.a].arr, k, False))
                out.append((s, None))
            else:
                out += ex.raise_(s, 'KeyError', node)
        return out
    raise Unsupported('remove')


# ---- math -----------------------------------------------------------------------------------------
PI = z3.Const('math.pi', RealS)
COS = z3.Function('math.cos', RealS, RealS)
B['const:math.pi'] = PI


def math_axioms():
    a, b = z3.Reals('a b')
    return [PI > 3, PI < 4, COS(0) == 1, COS(PI) == -1,
            z3.ForAll([a], And(COS(a) <= 1, COS(a) >= -1), patterns=[COS(a)])]


@reg('math.cos')
def _cos(ex, st, args, kw, node):
    x = toz(ex.unwrap(st, args[0]))
    return [(st, COS(z3.simplify(z3.ToReal(x) if x.sort() == IntS else x)))]


@reg('typing.cast')
def _cast(ex, st, args, kw, node):
    return [(st, args[1])]

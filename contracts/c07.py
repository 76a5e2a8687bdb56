"""C07: a rewrite rule changes only the field it names, and loses no value."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo, Task
from pydv.ex import St, isz, toz
from z3 import And, Or, Not, Implies, If, IntVal
from contracts.docpath import *

R = 'hyperstate.schema.rewrite_rule'
S = z3.IntSort()


def mkpath(name):
    n, P = fresh(name + '.n', I), fresh(name, SA)
    return n, P, Seq(n, SLeaf(Str), [P], 0, 'list')


def base(t):
    ex = t.engine(axioms=defs())
    st = St()
    d = fresh('doc', V)
    n, P, path = mkpath('path')
    st.assume(n >= 1)
    st.assume(isd(d))
    i = z3.Int('i')
    st.assume(FA([i], P[i] != lit(WEAK), P[i]))
    st.assume(lemma_absent_below(t))
    ptr = ex.newdoc(st, d)
    return ex, st, d, n, P, path, ptr


def walk_cands(d, P, more=()):
    def cands(loop):
        yield 'structs so far', lambda v: isd(getp(d, P, v.i))
        yield 'something so far', lambda v: getp(d, P, v.i) != V.absent
        yield 'only structs so far', lambda v: dicts(d, P, v.i + 1)
        for nm, f in more:
            yield nm, f
    return cands


def remove(t):
    ex, st, d, n, P, path, ptr = base(t)
    ex.loops['*'] = walk_cands(d, P)
    g = getp(d, P, n)

    def ensures(s, r):
        val, ok = r.items
        root = s.heap[ptr.a].root
        ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
        return [('reports whether the field is given', ok == (g != V.absent)),
                ('returns its value', Implies(ok, ex.to_V(s, val) == g)),
                ('removes exactly that field', root == If(g != V.absent, putp(d, P, n, V.absent), d))]
    t.check_fn(ex, st, f'{R}:_remove', [ptr, path], ensures)


def lemmas(t):
    t.engine(axioms=defs())
    L = Lemmas(t)
    d, p, q, w = fresh('d', V), fresh('p', SA), fresh('q', SA), fresh('w', V)
    n, i, j, m, k = (fresh(x, I) for x in 'nijmk')
    c = z3.Bool('c')
    L.get_put(d, p, i, w); L.put_above(d, p, i, w, k); L.frame(d, p, i, w, q, j, m)
    L.put_put(d, p, i, w, w); L.put_same(d, p, i); L.ext_same(d, p, i)
    L.dicts_put(d, p, i, w); L.dicts_open(d, p, n); L.present_dicts(d, p, n); L.ext_dicts(d, p, n, c)
    L.ext_inv(d, p, n, c, i); L.ext_frame(d, p, n, c, i, q, j, m)



def get(t):
    ex, st, d, n, P, path, ptr = base(t)
    ex.loops['*'] = walk_cands(d, P)
    g = getp(d, P, n)

    def ensures(s, r):
        val, ok = r.items
        ok = z3.BoolVal(ok) if isinstance(ok, bool) else ok
        return [('reports whether the field is given', ok == (g != V.absent)),
                ('returns its value', Implies(ok, ex.to_V(s, val) == g)),
                ('leaves the document as it was', s.heap[ptr.a].root == d)]
    t.check_fn(ex, st, f'{R}:_get', [ptr, path], ensures)


def blocked(d, P, n):
    return Not(Lemmas(None).open_(d, P, n))


def insert(t):
    ex, st, d, n, P, path, ptr = base(t)
    L = Lemmas(t)
    c, w = z3.Bool('create_new'), fresh('value', V)
    st.assume(w != V.absent)
    i = z3.Int('i')
    op = L.open_(d, P, n)
    st.assume(FA([i], L.ext_inv(d, P, n, c, i), ext(d, P, i, c)))
    st.assume(put_unfold(ext(d, P, n - 1, c), P, n, w))

    def inv(v):
        return v.root(ptr.a) == ext(d, P, v.i, c)
    ex.loops['*'] = walk_cands(d, P, [('structs created so far', inv), ('struct reached', lambda v: isd(getp(v.root(ptr.a), P, v.i)))])

    def ensures(s, r):
        root = s.heap[ptr.a].root
        r = z3.BoolVal(r) if isinstance(r, bool) else r
        return [('reports whether the path is open', r == op),
                ('puts the value, creating structs on the way, or changes nothing', root == If(r, putp(ext(d, P, n - 1, c), P, n, w), d))]
    t.check_fn(ex, st, f'{R}:_insert', [ptr, path, w, c], ensures)


# ---- the rules, against the contracts of _remove, _get and _insert -----------------------------------------------------
def pathof(ex, st, x):
    q = ex.to_seq(st, ex.deref(st, x))
    if len(q.leaves) != 1 or not (isinstance(q.off, int) and q.off == 0):
        raise Unsupported('path of an unexpected form')
    return q.leaves[0], toz(q.n)


class Calls:
    """Contracts of the helpers at call sites; `tracked` are (Q, m, {path: j}) branching off the rule's paths."""

    def __init__(self, t, ex, tracked):
        self.t, self.ex, self.tracked, self.L = t, ex, tracked, Lemmas(None)
        self.L.once = lambda *a: None          # proved by the task `lemmas`
        for f in ('_remove', '_get', '_insert'):
            ex.contracts[f'{R}:{f}'] = getattr(self, f)
            t.assumed.add(f'{R}:{f}')

    def root(self, st, x):
        p = self.ex.doc_norm(st, x)
        if p.segs:
            raise Unsupported('helper called on a part of the document')
        return p, st.heap[p.a].root

    def new_root(self, st, p, v):
        st.heap[p.a] = HDoc(v)
        st.muts[p.a] = st.muts.get(p.a, ()) + (('*', None),)

    def bind(self, st, fn, args, kwargs, node):
        (s, env), = self.ex.bind_args(st, fn, args, kwargs, node)
        if isinstance(env, Exc) or s is not st:
            raise Unsupported('arguments of a helper')
        names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]     # by position: a parameter may be renamed
        return dict(zip(('state_dict', 'path', 'value', 'create_new'), [env[k] for k in names]))

    def frames(self, st, P, f):
        for Q, m, js in self.tracked:
            for P2, j in js:
                if P2.eq(P):
                    st.assume(f(Q, j, m))

    def _get(self, ex, st, fn, args, kwargs, node):
        b = self.bind(st, fn, args, kwargs, node)
        p, d = self.root(st, b['state_dict'])
        P, n = pathof(ex, st, b['path'])
        ex.oblige(st, 'a path has at least one segment', n >= 1, f'line {node.lineno}')
        g = getp(d, P, n)
        out = []
        for s, here in ex.split(st, g != V.absent):
            out.append((s, Tup([g, True]) if here else Tup([None, False])))
        return out

    def _remove(self, ex, st, fn, args, kwargs, node):
        b = self.bind(st, fn, args, kwargs, node)
        p, d = self.root(st, b['state_dict'])
        P, n = pathof(ex, st, b['path'])
        ex.oblige(st, 'a path has at least one segment', n >= 1, f'line {node.lineno}')
        g = getp(d, P, n)
        out = []
        for s, here in ex.split(st, g != V.absent):
            if not here:
                out.append((s, Tup([None, False])))
                continue
            L, A = self.L, V.absent
            d1 = putp(d, P, n, A)
            s.assume(L.present_dicts(d, P, n))
            s.assume(L.dicts_open(d, P, n))
            s.assume(L.get_put(d, P, n, A))
            s.assume(L.dicts_put(d, P, n, A))
            s.assume(L.dicts_open(d1, P, n))
            s.assume(L.put_same(d, P, n))
            self.frames(s, P, lambda Q, j, m: L.frame(d, P, n, A, Q, j, m))
            self.new_root(s, p, d1)
            out.append((s, Tup([g, True])))
        return out

    def _insert(self, ex, st, fn, args, kwargs, node):
        b = self.bind(st, fn, args, kwargs, node)
        p, d = self.root(st, b['state_dict'])
        P, n = pathof(ex, st, b['path'])
        w, c = ex.to_V(st, b['value']), b['create_new']
        c = z3.BoolVal(c) if isinstance(c, bool) else c
        ex.oblige(st, 'a path has at least one segment', n >= 1, f'line {node.lineno}')
        ex.oblige(st, 'the document is a struct', isd(d), f'line {node.lineno}')
        ex.oblige(st, 'a value is inserted', w != V.absent, f'line {node.lineno}')
        L = self.L
        e = ext(d, P, n - 1, c)
        d1 = putp(e, P, n, w)
        op = L.open_(d, P, n)
        out = []
        for s, o in ex.split(st, op):
            if o:
                s.assume(L.ext_dicts(d, P, n, c))
                s.assume(L.get_put(e, P, n, w))
                s.assume(L.dicts_put(e, P, n, w))
                if z3.is_false(z3.simplify(c)):
                    s.assume(L.ext_same(d, P, n - 1))
                if d.decl().eq(putp) and d.arg(1).eq(P) and d.arg(2).eq(n):
                    s.assume(L.put_put(d.arg(0), P, n, d.arg(3), w))
                self.frames(s, P, lambda Q, j, m: L.ext_frame(d, P, n, c, n - 1, Q, j, m))
                self.frames(s, P, lambda Q, j, m: L.frame(e, P, n, w, Q, j, m))
                self.new_root(s, p, d1)
            out.append((s, o))
        return out


def rule(t, cls, fields, npaths=1):
    """A rule object with symbolic paths, an arbitrary document, and an arbitrary path that branches off the rule's paths."""
    MODE['atom'] = True
    ex = t.engine()
    st = St()
    d = fresh('doc', V)
    st.assume(isd(d))
    paths = []
    for i in range(npaths):
        n, P, path = mkpath(f'path{i}')
        st.assume(n >= 1)
        st.assume(noweak(P))
        paths.append((n, P, path))
    q, m = fresh('q', SA), fresh('m', I)
    st.assume(noweak(q))
    js = []
    for n, P, _ in paths:
        j = fresh('j', I)
        st.assume(And(0 <= j, j < n, j < m, agree(P, q, j), P[j] != q[j]))
        js.append((P, j))
    c = Calls(t, ex, [(q, m, js)])
    c.js = js
    ptr = ex.newdoc(st, d)
    C = repo().get(f'{R}:{cls}')
    obj = ex.alloc(st, HObj(C, fields([p[2] for p in paths])))
    fn, _ = C.find('apply')
    other = lambda s: ('leaves every other field as it was', getp(s.heap[ptr.a].root, q, m) == getp(d, q, m))
    t.trust('paths and documents use no field named "!weak ref" other than the marker of the rules themselves')
    return ex, st, d, paths, ptr, obj, fn, other, c


def same_doc(ex, s, r, ptr):
    """The rule returns the document it was given."""
    return isinstance(r, DocPtr) and ex.doc_norm(s, r).a == ptr.a and not ex.doc_norm(s, r).segs


def run_rule(t, ex, st, fn, obj, ptr, other, ensures, raises=None):
    def ens(s, r):
        root = s.heap[ptr.a].root
        return [('returns the document it was given', z3.BoolVal(same_doc(ex, s, r, ptr)))] + ensures(s, root) + [other(s)]
    t.check_fn(ex, st, fn.qual, [obj, ptr], ens, raises, fn=fn, label=fn.qual.split(':')[1])


def delete_field(t):
    ex, st, d, [(n, P, path)], ptr, obj, fn, other, c = rule(t, 'DeleteField', lambda ps: {'field': ps[0]})
    run_rule(t, ex, st, fn, obj, ptr, other, lambda s, root: [
        ('removes the field', getp(root, P, n) == V.absent),
        ('changes nothing else', root == If(getp(d, P, n) != V.absent, putp(d, P, n, V.absent), d))])


F = z3.Function('map_fn', V, V)


def map_field(t):
    def apply(ex, st, args, kwargs, node):
        x = ex.to_V(st, args[0])
        st.assume(F(x) != V.absent)
        s2 = st.fork()
        return [(st, F(x)), (s2, Exc(bt('Exception'), (), node))]
    f = Lam('map_fn', apply)
    ex, st, d, [(n, P, path)], ptr, obj, fn, other, c = rule(t, 'MapFieldValue', lambda ps: {'field': ps[0], 'map_fn': f, 'rendered': None})
    g = getp(d, P, n)
    t.trust('map_fn is a function of the value (it may raise)')
    run_rule(t, ex, st, fn, obj, ptr, other, lambda s, root: [
        ('maps the value if there is one', getp(root, P, n) == If(g != V.absent, F(g), V.absent)),
        ('changes nothing else', root == If(g != V.absent, putp(d, P, n, F(g)), d))],
        lambda s, x: [('raises only if map_fn does', g != V.absent)])


def isweak(v):
    return And(isd(v), V.m(v)[lit(WEAK)] != V.absent)


def change_default(t):
    old, new = fresh('old', V), fresh('new', V)
    ex, st, d, [(n, P, path)], ptr, obj, fn, other, c = rule(t, 'ChangeDefault', lambda ps: {'field': ps[0], 'old_default': old, 'new_default': new})
    st.assume(And(old != V.absent, new != V.absent))
    g = getp(d, P, n)
    op = Lemmas(None).open_(d, P, n)
    run_rule(t, ex, st, fn, obj, ptr, other, lambda s, root: [
        ('keeps a value that is given', Implies(And(g != V.absent, Not(isweak(g))), root == d)),
        ('pins the old default where no value is given', Implies(And(Or(g == V.absent, isweak(g)), op), getp(root, P, n) == old)),
        ('changes nothing where the path leads through a value that is no struct', Implies(Not(op), root == d))])


def add_default(t):
    new = fresh('new', V)
    ex, st, d, [(n, P, path)], ptr, obj, fn, other, c = rule(t, 'AddDefault', lambda ps: {'field': ps[0], 'default': new})
    st.assume(new != V.absent)
    g = getp(d, P, n)
    op = Lemmas(None).open_(d, P, n)
    run_rule(t, ex, st, fn, obj, ptr, other, lambda s, root: [
        ('keeps a value that is given', Implies(g != V.absent, root == d)),
        ('gives the default where no value is given', Implies(And(g == V.absent, op), getp(root, P, n) == new)),
        ('changes nothing where the path leads through a value that is no struct', Implies(Not(op), root == d))])


def rename_field(t):
    ex, st, d, [(n, P, path), (n2, P2, path2)], ptr, obj, fn, other, c = rule(
        t, 'RenameField', lambda ps: {'old_field': ps[0], 'new_field': ps[1]}, 2)
    # the two paths may branch off each other (j3), or one may contain the other
    j3 = fresh('j3', I)
    branch = And(0 <= j3, j3 < n, j3 < n2, agree(P2, P, j3), P2[j3] != P[j3])
    c.tracked.append((P, n, [(P2, j3)]))
    g = getp(d, P, n)
    d1 = putp(d, P, n, V.absent)
    op = Lemmas(None).open_(d1, P2, n2)

    def ensures(s, root):
        return [('does nothing if the field is not given', Implies(g == V.absent, root == d)),
                ('moves the value to the new field', Implies(And(g != V.absent, op), getp(root, P2, n2) == g)),
                ('leaves nothing at the old field', Implies(And(g != V.absent, op, branch), getp(root, P, n) == V.absent)),
                ('changes nothing if the new path leads through a value that is no struct', Implies(And(g != V.absent, Not(op)), root == d))]
    run_rule(t, ex, st, fn, obj, ptr, other, ensures)


def valueset(name, st):
    arr = fresh(name, z3.ArraySort(V, z3.BoolSort()))
    v, w = z3.Consts('v w', V)
    st.assume(FA([v, w], Implies(u.pyeq(v, w), arr[v] == arr[w]), (arr[v], u.pyeq(v, w)), (arr[w], u.pyeq(v, w))))
    return SetVal(arr)


def check_value(t):
    tmp = St()
    vs = valueset('allowed', tmp)
    ex, st, d, [(n, P, path)], ptr, obj, fn, other, c = rule(t, 'CheckValue', lambda ps: {'field': ps[0], 'allowed_values': vs})
    for f in tmp.pc:
        st.assume(f)
    g = getp(d, P, n)
    run_rule(t, ex, st, fn, obj, ptr, other, lambda s, root: [
        ('accepts only allowed values', Or(g == V.absent, vs.arr[g])),
        ('leaves the document as it was', root == d)],
        lambda s, x: [('raises only on values that are not allowed', And(g != V.absent, Or(Not(vs.arr[g]), V.is_lst(g), V.is_dict(g))))])


def reject_values(t):
    tmp = St()
    vs = valueset('disallowed', tmp)
    ex, st, d, [(n, P, path)], ptr, obj, fn, other, c = rule(t, 'RejectValues', lambda ps: {'field': ps[0], 'disallowed_values': vs})
    for f in tmp.pc:
        st.assume(f)
    g = getp(d, P, n)
    run_rule(t, ex, st, fn, obj, ptr, other, lambda s, root: [
        ('accepts no disallowed value', Or(g == V.absent, Not(vs.arr[g]))),
        ('leaves the document as it was', root == d)],
        lambda s, x: [('raises only on disallowed values', And(g != V.absent, vs.arr[g]))])


TASKS = ['lemmas', 'remove', 'get', 'insert', 'delete_field', 'map_field', 'change_default', 'add_default', 'rename_field', 'check_value', 'reject_values']
TECHNIQUE = 'deductive verification of the rewrite rules (pydv: contracts, loop invariants, inductive lemmas on document paths, z3/cvc5)'
NOTE = ('Proved for all documents and paths: _remove, _get, _insert and apply() of all seven rules, against one another\'s contracts. '
        'Assumed: map_fn is a function; no field is named "!weak ref".')

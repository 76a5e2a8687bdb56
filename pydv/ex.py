"""Symbolic executor / verification-condition generator over the ASTs of the verified code.

Executes one function over symbolic inputs along all paths, forking wherever behaviour (including
every exception an operation may raise) depends on symbolic data. Loops over symbolic sequences are
cut with invariants (candidate invariants come from contracts and generic templates, and are kept
only if proved initially true and preserved). Calls to functions under contract are replaced by
their contract; other repository functions are executed in place.
"""
import ast
import z3
from . import univ as u
from .univ import V, Ty, Str, fresh, lit, box
from .vals import *
from .front import Ext, Repo

And, Or, Not, Implies, If, Select, Store = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select, z3.Store
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


TRUE = z3.BoolVal(True)


class Fwd:
    """A heap cell whose object was stored into a document."""

    def __init__(self, ptr):
        self.ptr = ptr


class Poison:
    """A variable whose value is not tracked (bound only inside a cut loop)."""

    def __init__(self, name):
        self.name = name


class St:
    __slots__ = ('pc', 'heap', 'frames', 'ghost', 'muts')

    def __init__(self):
        self.pc, self.heap, self.frames, self.ghost, self.muts = [], {}, {}, {}, {}

    def fork(self):
        s = St()
        s.pc, s.heap, s.ghost = list(self.pc), dict(self.heap), dict(self.ghost)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.muts = dict(self.muts)
        return s

    def assume(self, *fs):
        for f in fs:
            if not (f is True or (z3.is_expr(f) and z3.is_true(f))):
                self.pc.append(z3.BoolVal(False) if f is False else f)
        return self


class Frame:
    def __init__(self, fid, fn, mod, cls=None):
        self.fid, self.fn, self.mod, self.cls = fid, fn, mod, cls
        self.globals_decl = set()


class Obligation:
    def __init__(self, name, hyps, goal, where=''):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


NEXT, RET, EXC, BRK, CONT = 'next', 'ret', 'exc', 'brk', 'cont'


def isz(x):
    return isinstance(x, z3.ExprRef)


def isnumt(x):
    return isinstance(x, (int, float)) or (isz(x) and x.sort() in (IntS, RealS, BoolS))


def toz(x):
    """A Python number or numeric term as an Int/Real term."""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(u.float_frac(x))
    if x.sort() == BoolS:
        return If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def tobool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def toStr(x):
    return lit(x) if isinstance(x, str) else x


class Ex:
    MAXDEPTH = 14

    def __init__(self, repo, contracts=None, ext=None, loops=None, attrs=None, axioms=None, max_paths=4000):
        self.repo = repo
        self.contracts = contracts or {}
        self.ext = dict(BASE_EXT)
        self.ext.update(ext or {})
        self.loops = loops or {}
        self.attrs = attrs or {}             # sort name -> handler(ex, st, term, attr) for abstract terms
        self.axioms = axioms or []
        self.obligs = []
        self.quiet = 0
        self.naddr = 0
        self.depth = 0
        self.max_paths = max_paths
        self.npaths = 0
        self.callstack = []
        self.fsolver = z3.Solver()
        self.fsolver.set('rlimit', 600000)
        self.fsolver.set('timeout', 20000)
        self.fsolver.set('smt.mbqi', False)
        self.inv_log = []
        self.trace = False
        self.solve_inv = None                # set by the prover: f(hyps, goal) -> bool
        self.functions = set()               # qualified names of functions executed in place

    # ---- basics -------------------------------------------------------------------------------------
    def decorators(self, d):
        """Which other decorators do not change what a function does (a contract may replace this)."""
        return False

    def alloc(self, st, obj):
        self.naddr += 1
        st.heap[self.naddr] = obj
        return Ref(self.naddr)

    def newdoc(self, st, root):
        r = self.alloc(st, HDoc(root))
        return DocPtr(r.a, ())

    def feasible(self, st, extra=()):
        s = self.fsolver
        s.push()
        try:
            for f in st.pc:
                if not z3.is_quantifier(f):
                    s.add(f)
            for f in extra:
                s.add(f)
            return s.check() != z3.unsat
        finally:
            s.pop()

    def proves(self, st, f):
        f = tobool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return not self.feasible(st, [Not(f)])

    def split(self, st, cond):
        """[(state, bool)] for the feasible outcomes of a condition."""
        if isinstance(cond, bool):
            return [(st, cond)]
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        t, f = self.feasible(st, [cond]), self.feasible(st, [Not(cond)])
        if t and f:
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Unsupported('too many paths')
        if self.merge and t != f:
            return [(st, t)]        # (implied by what the path knows already)
        if t:
            s = st.fork() if f else st
            s.assume(cond)
            out.append((s, True))
        if f:
            st.assume(Not(cond)) if not t else st.assume(Not(cond))
            out.append((st, False))
        return out

    def oblige(self, st, name, goal, where=''):
        if self.quiet:
            return
        self.obligs.append(Obligation(name, list(st.pc), tobool(goal), where))

    def raise_(self, st, cls, node=None, *args):
        return [(st, Exc(bt(cls) if isinstance(cls, str) else cls, args, node))]

    # ---- documents ------------------------------------------------------------------------------------
    def doc_read_root(self, st, root, segs):
        v = root
        for s in segs:
            v = u.getp(v, s[1], s[2]) if s[0] == 'p' else u.child(v, s[1])
        return v

    def doc_norm(self, st, p):
        """Follow forwarding and later mutations of the cell the pointer points into."""
        while True:
            h = st.heap[p.a]
            if isinstance(h, Fwd):
                q = h.ptr
                p = DocPtr(q.a, self.join_segs(st, q.segs, p.segs))
                p.ver = q.ver
                continue
            if not isinstance(h, HDoc):
                raise Unsupported('not a document')
            log = st.muts.get(p.a, ())
            ver = getattr(p, 'ver', 0)
            moved = None
            for (slot, det) in log[ver:]:
                if slot == '*':
                    if p.segs:
                        raise Unsupported('pointer into a document that a loop modified')
                    continue
                rel, rest = self.seg_rel(st, p.segs, slot)
                if rel == 'under':
                    if det is None:
                        raise Unsupported('use of a removed part of a document')
                    moved = DocPtr(det, rest)
                    moved.ver = 0
                    break
            if moved is None:
                q = DocPtr(p.a, p.segs)
                q.ver = len(log)
                return q
            p = moved

    def join_segs(self, st, a, b):
        out = list(a)
        for s in b:
            out = self.ext_seg(st, out, s)
        return tuple(out)

    def ext_seg(self, st, segs, s):
        segs = list(segs)
        if s[0] == 'k' and z3.is_select(s[1]) and s[1].arg(0).sort() == u.SA:
            P, i = s[1].arg(0), s[1].arg(1)
            if segs and segs[-1][0] == 'p' and segs[-1][1].eq(P) and self.proves(st, segs[-1][2] == i):
                segs[-1] = ('p', P, z3.simplify(i + 1))
                return segs
            if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0:
                segs.append(('p', P, z3.IntVal(1)))
                return segs
        segs.append(s)
        return segs

    def seg_rel(self, st, p, slot):
        """Is pointer path p at/under the mutated slot ('under', remaining) or unaffected ('other')?"""
        i = 0
        while True:
            if i == len(slot):
                return 'under', p[i:]
            if i == len(p):
                return 'other', None
            a, b = p[i], slot[i]
            if a[0] == 'k' and b[0] == 'k':
                if a[1].eq(b[1]) or self.proves(st, a[1] == b[1]):
                    i += 1
                    continue
                la, lb = u.litval(a[1]), u.litval(b[1])
                if (la is not None and lb is not None) or self.proves(st, a[1] != b[1]):
                    return 'other', None
                raise Unsupported('possible aliasing inside a document')
            if a[0] == 'p' and b[0] == 'p' and a[1].eq(b[1]):
                if a[2].eq(b[2]) or self.proves(st, a[2] == b[2]):
                    i += 1
                    continue
                if i == len(p) - 1 and self.proves(st, a[2] < b[2]):
                    return 'other', None
            if a[0] == 'p' and self.proves(st, a[2] == 0):
                p = p[:i] + p[i + 1:]
                continue
            if b[0] == 'p' and self.proves(st, b[2] == 0):
                slot = slot[:i] + slot[i + 1:]
                continue
            raise Unsupported('possible aliasing inside a document')

    def doc_read(self, st, p):
        p = self.doc_norm(st, p)
        return self.doc_read_root(st, st.heap[p.a].root, p.segs)

    def doc_child(self, st, p, key):
        """Pointer to the child at a key (which must be present)."""
        p = self.doc_norm(st, p)
        segs = self.ext_seg(st, p.segs, ('k', key))
        q = DocPtr(p.a, segs)
        q.ver = p.ver
        self.unfold(st, q)
        return q

    def unfold(self, st, q):
        root = st.heap[q.a].root
        if q.segs and q.segs[-1][0] == 'p':
            base = self.doc_read_root(st, root, q.segs[:-1])
            _, P, j = q.segs[-1]
            st.assume(u.getp(base, P, j) == u.child(u.getp(base, P, z3.simplify(j - 1)), Select(P, z3.simplify(j - 1))))
            st.assume(u.getp(base, P, 0) == base)

    def put_root(self, st, root, segs, w):
        if not segs:
            return w
        s = segs[0]
        if s[0] == 'k':
            inner = self.put_root(st, u.child(root, s[1]), segs[1:], w)
            return u.mset(root, s[1], inner)
        inner = self.put_root(st, u.getp(root, s[1], s[2]), segs[1:], w)
        new = u.putp(root, s[1], s[2], inner)
        return new

    def doc_write(self, st, p, key, w, stored=None):
        """container p must be a dict here. w: V term (u.V.absent deletes). stored: value moved into the slot."""
        p = self.doc_norm(st, p)
        h = st.heap[p.a]
        if h.moved:
            raise Unsupported('mutation of a document part that was handed over')
        slot = tuple(self.ext_seg(st, p.segs, ('k', key)))
        old = self.doc_read_root(st, h.root, slot)
        if slot and slot[-1][0] == 'p':
            base = self.doc_read_root(st, h.root, slot[:-1])
            _, P, j = slot[-1]
            st.assume(u.getp(base, P, j) == u.child(u.getp(base, P, z3.simplify(j - 1)), Select(P, z3.simplify(j - 1))))
            old = u.child(u.getp(base, P, z3.simplify(j - 1)), Select(P, z3.simplify(j - 1)))
        self.naddr += 1
        det = self.naddr
        st.heap[det] = HDoc(old)
        newroot = self.put_root(st, h.root, slot, w)
        st.muts[p.a] = st.muts.get(p.a, ()) + ((slot, det),)
        st.heap[p.a] = HDoc(newroot)
        if slot and slot[-1][0] == 'p' and len(slot) == 1:
            _, P, j = slot[-1]
            st.assume(u.getp(newroot, P, j) == w)
        q = DocPtr(p.a, slot)
        q.ver = len(st.muts[p.a])
        if stored is not None:
            st.heap[stored] = Fwd(q)
        return q

    def to_V(self, st, x, move=None):
        """Value as a V term. With `move` (a list), the addresses of mutable objects captured are recorded."""
        hook = self.ext.get('to_V')
        if hook is not None:
            r = hook(self, st, x)
            if r is not None:
                return r
        if isinstance(x, DocPtr):
            x = self.doc_norm(st, x)
            if move is not None and not x.segs:
                move.append(x.a)
            return self.doc_read(st, x)
        if isinstance(x, Ref):
            h = st.heap[x.a]
            if isinstance(h, Fwd):
                return self.doc_read(st, h.ptr)
            if move is not None:
                move.append(x.a)
            if isinstance(h, HDict):
                m = u.EMPTY_M
                for k, v in h.items:
                    if not isinstance(k, str):
                        raise Unsupported('non-string key in a document')
                    m = Store(m, lit(k), self.to_V(st, v))
                return V.dict(m)
            if isinstance(h, HDoc):
                return h.root
            if isinstance(h, HList):
                a = u.EMPTY_LA
                for i, v in enumerate(h.items):
                    a = Store(a, i, self.to_V(st, v))
                return V.lst(z3.IntVal(len(h.items)), a)
            if isinstance(h, HSeq):
                return self.seq_to_V(st, h.seq, V.lst)
            raise Unsupported(f'cannot represent {type(h).__name__} as a document value')
        if isinstance(x, Tup):
            a = u.EMPTY_LA
            for i, v in enumerate(x.items):
                a = Store(a, i, self.to_V(st, v))
            return V.tup(z3.IntVal(len(x.items)), a)
        if isinstance(x, Seq):
            return self.seq_to_V(st, x, V.tup if x.kind == 'tuple' else V.lst)
        if isinstance(x, Maybe):
            return If(x.isnone, V.none, self.to_V(st, x.val))
        try:
            return box(x)
        except TypeError:
            raise Unsupported(f'cannot represent {x!r} as a document value')

    def seq_to_V(self, st, s, ctor):
        if isinstance(s.shape, SLeaf) and s.shape.sort == V and isinstance(s.off, int) and s.off == 0:
            return ctor(s.n if isz(s.n) else z3.IntVal(s.n), s.leaves[0])
        if isinstance(s.shape, SLeaf):
            a = fresh('boxed', u.LA)
            i = fresh('i', IntS)
            e = box(s.at(i))
            st.assume(z3.ForAll([i], a[i] == If(And(0 <= i, i < s.n), e, V.absent), patterns=[a[i]]))
            return ctor(s.n if isz(s.n) else z3.IntVal(s.n), a)
        raise Unsupported('sequence of objects as a document value')

    # ---- truth, equality, comparison ----------------------------------------------------------------------
    def truth(self, st, v):
        """Truth value as Python bool or Bool term."""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, Maybe):
            t = self.truth(st, v.val)
            return And(Not(v.isnone), tobool(t))
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Seq):
            return (v.n > 0) if not isinstance(v.n, int) else v.n > 0
        if isinstance(v, MapVal):
            return v.n > 0
        if isinstance(v, DocPtr):
            return self.truth(st, self.doc_read(st, v))
        if isinstance(v, Ref):
            h = st.heap[v.a]
            if isinstance(h, Fwd):
                return self.truth(st, h.ptr)
            if isinstance(h, (HList, HDict, HSet)):
                return len(h.items) > 0
            if isinstance(h, HSeq):
                return self.truth(st, h.seq)
            if isinstance(h, HMap):
                return h.m.n > 0
            if isinstance(h, HDoc):
                return self.truth(st, h.root)
            if isinstance(h, HObj):
                return True
        if isz(v):
            s = v.sort()
            if s == BoolS:
                return v
            if s == IntS or s == RealS:
                return v != 0
            if s == Str:
                return v != lit('')
            if s == V:
                return If(V.is_bool(v), V.b(v), If(V.is_int(v), V.i(v) != 0, If(V.is_flt(v), V.r(v) != 0, If(
                    V.is_str(v), V.s(v) != lit(''), If(V.is_lst(v), V.ln(v) > 0, If(V.is_tup(v), V.tn(v) > 0, If(
                        V.is_dict(v), u.klen(V.m(v)) > 0, Not(V.is_none(v)))))))))
            return True
        if isinstance(v, (FnVal, ClassVal, BType, Ext, ModVal, Builtin, Bound, EnumMember, Rec, Lam)):
            return True
        if isinstance(v, SetVal) and getattr(v, 'gen', None):
            n, i, e, c = v.gen      # not empty: one of its elements is kept (the facts are assumed again: paths differ)
            some, j = fresh('some', BoolS), fresh('j', IntS)
            st.assume(Implies(some, z3.substitute(And(0 <= i, i < n, c), (i, j))), u.forall([i], Implies(And(Not(some), 0 <= i, i < n), Not(c)), e))
            return some
        raise Unsupported(f'truth value of {v!r}')

    def deref(self, st, v):
        """Replace Ref-to-doc by DocPtr, and pointers by their current value term where only the value matters."""
        if isinstance(v, Ref):
            h = st.heap[v.a]
            if isinstance(h, Fwd):
                return h.ptr
            if isinstance(h, HDoc):
                p = DocPtr(v.a, ())
                p.ver = len(st.muts.get(v.a, ()))
                return p
        return v

    def eq(self, st, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, DocPtr):
            a = self.doc_read(st, a)
        if isinstance(b, DocPtr):
            b = self.doc_read(st, b)
        conc = (bool, int, float, str, bytes, type(None))
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if isinstance(a, Maybe) or isinstance(b, Maybe):
            if not isinstance(a, Maybe):
                a, b = b, a
            if b is None:
                return a.isnone
            if isinstance(b, Maybe):
                return Or(And(a.isnone, b.isnone), And(Not(a.isnone), Not(b.isnone), tobool(self.eq(st, a.val, b.val))))
            return And(Not(a.isnone), tobool(self.eq(st, a.val, b)))
        if isinstance(a, Choice):
            return Or([And(a.tag == i, tobool(self.eq(st, o, b))) for i, o in enumerate(a.options)])
        if isinstance(b, Choice):
            return self.eq(st, b, a)
        if isz(a) and isz(b) and a.sort() == b.sort() and a.sort() not in (V,):
            return a == b
        if isnumt(a) and isnumt(b):
            return toz(a) == toz(b)
        if (isz(a) and a.sort() == V) or (isz(b) and b.sort() == V):
            if not (isz(a) and a.sort() == V):
                a, b = b, a
            if isinstance(b, EnumMember):
                raise Unsupported('comparison of a document value with an enum member')
            if isinstance(b, (Ext, BType, ClassVal)) and not isinstance(b, str):
                t = self.as_ty(b)
                return False if t is None else a == V.ty(t)
            if isinstance(b, Tup) and not b.items:
                return And(V.is_tup(a), V.tn(a) == 0)
            if isinstance(b, (Tup, Ref, Seq)) or isinstance(b, conc) or isz(b):
                vb = self.to_V(st, b)
                sb = z3.simplify(vb)
                if isinstance(b, conc) or (isz(b) and b.sort() in (Str, IntS, RealS, z3.BoolSort())):
                    if isinstance(b, str) or b is None or (isz(b) and b.sort() == Str):
                        return a == vb
                    return And(u.is_num(a), u.num(a) == u.num(vb))
                return u.pyeq(a, vb)
            raise Unsupported(f'comparison with {b!r}')
        if (isz(a) and a.sort() == Str and isinstance(b, str)) or (isz(b) and b.sort() == Str and isinstance(a, str)):
            return toStr(a) == toStr(b)
        if isz(a) and a.sort() == Ty or isz(b) and b.sort() == Ty:
            if not (isz(a) and a.sort() == Ty):
                a, b = b, a
            t = self.as_ty(b)
            return False if t is None else a == t
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            cs = [self.eq(st, x, y) for x, y in zip(a.items, b.items)]
            if any(c is False for c in cs):
                return False
            cs = [c for c in cs if c is not True]
            return And(cs) if cs else True
        if isinstance(a, SetVal) and isinstance(b, SetVal) and getattr(a, 'gen', None) and getattr(b, 'gen', None):
            return And([u.forall([i], Implies(And(0 <= i, i < n, c), y.arr[e]), e) for (n, i, e, c), y in ((a.gen, b), (b.gen, a))])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (ClassVal, BType, Ext, ModVal, FnVal)):
                if isinstance(y, (ClassVal, BType, Ext, ModVal, FnVal)):
                    return x is y or same_const(x, y)
                return False
            if isinstance(x, EnumMember):
                if isinstance(y, EnumMember):
                    return x == y
                return False
        if a is None or b is None:
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.a == b.a:
                return True
            ha, hb = st.heap[a.a], st.heap[b.a]
            if isinstance(ha, HList) and isinstance(hb, HList):
                return self.eq(st, Tup(ha.items), Tup(hb.items))
            if isinstance(ha, HObj) and isinstance(hb, HObj):
                return self.obj_eq(st, ha, hb)
        if isinstance(a, (Rec,)) and isinstance(b, (Rec,)):
            return self.obj_eq(st, a, b)
        if isinstance(a, (str, int, float)) or isinstance(b, (str, int, float)):
            x, y = (a, b) if isinstance(a, (str, int, float)) else (b, a)
            if isz(y) and isinstance(x, str) and y.sort() in (IntS, RealS, BoolS):
                return False
            if isinstance(y, (Tup, Ref, Seq, Rec)):
                return False
            if isz(y) and y.sort() == Str and not isinstance(x, str):
                return False
        if isz(a) and isz(b) and {a.sort().name(), b.sort().name()} <= {'Int', 'Real', 'Bool', 'Str'}:
            return False
        raise Unsupported(f'comparison of {a!r} and {b!r}')

    def obj_eq(self, st, a, b):
        if a.cls is not b.cls:
            return False
        if isinstance(a.cls, ClassVal) and a.cls.isdataclass:
            cs = [self.eq(st, a.attrs[f[0]], b.attrs[f[0]]) for f in a.cls.allfields()]
            return And([tobool(c) for c in cs]) if cs else True
        raise Unsupported('object equality')

    def as_ty(self, x):
        """A class object as a Ty term (or None if it is no type annotation)."""
        if isz(x) and x.sort() == Ty:
            return x
        if isinstance(x, BType):
            return {'int': Ty.TInt, 'float': Ty.TFlt, 'str': Ty.TStr, 'bool': Ty.TBool, 'NoneType': Ty.TNoneT}.get(x.name)
        return None

    # ---- expressions ------------------------------------------------------------------------------------------
    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at line {e.lineno}')
        return m(e, st, fr)

    def evs(self, es, st, fr):
        """Evaluate left to right: [(state, [values] or Exc)]."""
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                if isinstance(vs, Exc):
                    nxt.append((s, vs))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        if isinstance(v, Exc):
                            nxt.append((s2, v))
                        else:
                            nxt.append((s2, vs + list(self.concrete_iter(s2, v))))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, v if isinstance(v, Exc) else vs + [v]))
            out = nxt
        return out

    def bind(self, rs, f):
        out = []
        for s, v in rs:
            out += [(s, v)] if isinstance(v, Exc) else f(s, v)
        return out

    def e_Constant(self, e, st, fr):
        return [(st, e.value)]

    def e_Name(self, e, st, fr):
        return self.load_name(e.id, st, fr, e)

    def load_name(self, name, st, fr, node=None):
        f = fr
        fid = fr.fid
        while fid is not None:
            env = st.frames[fid]
            if name in env:
                v = env[name]
                if isinstance(v, Poison):
                    raise Unsupported(f'value of {v.name} after a loop')
                return [(st, v)]
            fid = env.get('$parent')
        if fr.fn is not None and name in local_names(fr.fn.node) and name not in fr.globals_decl:
            return self.raise_(st, 'UnboundLocalError', node)
        return [(st, self.global_name(name, st, fr.mod, node))]

    def global_name(self, name, st, mod, node=None):
        if mod is not None:
            ov = self.ext.get(f'global:{mod.name}:{name}')
            if ov is not None:
                return ov(self, st) if callable(ov) else ov
            v = self.repo.lookup(mod, name)
            if v is not None:
                if isinstance(v, tuple) and v[0] == 'const':
                    return self.const_value(v, st)
                if isinstance(v, Ext) and f'const:{v.name}' in self.ext:
                    return self.ext[f'const:{v.name}']
                return v
        if name in BType._all and name in ('int', 'float', 'str', 'bool', 'list', 'dict', 'tuple', 'set', 'frozenset',
                                           'bytes', 'type', 'object') or (name in BType._all and (
                name.endswith('Error') or name in ('Exception', 'KeyboardInterrupt', 'BaseException', 'StopIteration'))):
            return bt(name)
        if 'builtins.' + name in self.ext:
            return Ext('builtins.' + name)
        import builtins
        if hasattr(builtins, name):
            return Ext('builtins.' + name)
        raise Unsupported(f'name {name} is not defined')

    def const_value(self, v, st):
        _, node, mod = v
        key = ('const', id(node))
        if key in st.ghost:
            return st.ghost[key]
        self.quiet += 1
        try:
            fr = self.new_frame(st, None, mod)
            rs = self.ev(node, st, fr)
        finally:
            self.quiet -= 1
        if len(rs) != 1 or isinstance(rs[0][1], Exc):
            raise Unsupported('module constant does not evaluate to one value')
        st.ghost[key] = rs[0][1]
        return rs[0][1]

    def new_frame(self, st, fn, mod, parent=None):
        self.naddr += 1
        fid = self.naddr
        st.frames[fid] = {'$parent': parent} if parent is not None else {}
        return Frame(fid, fn, mod)

    def e_Tuple(self, e, st, fr):
        return self.bind(self.evs(e.elts, st, fr), lambda s, vs: [(s, Tup(vs))])

    def e_List(self, e, st, fr):
        return self.bind(self.evs(e.elts, st, fr), lambda s, vs: [(s, self.alloc(s, HList(vs)))])

    def e_Set(self, e, st, fr):
        return self.bind(self.evs(e.elts, st, fr), lambda s, vs: [(s, self.alloc(s, HSet(vs)))])

    def e_Dict(self, e, st, fr):
        def mk(s, vs):
            cur = [(s, self.alloc(s, HDict(())))]
            i = 0
            for k in e.keys:
                nxt = []
                for s1, d in cur:
                    if k is None:
                        src = vs[i]
                        nxt += [(s2, d) for s2 in self.dict_update(s1, d, src)]
                    else:
                        for s2, r in self.setitem(s1, d, vs[i], vs[i + 1], e):
                            nxt.append((s2, r if isinstance(r, Exc) else d))
                cur = nxt
                i += 1 if k is None else 2
            return cur
        es = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                es.append(k)
            es.append(v)
        return self.bind(self.evs(es, st, fr), mk)

    def dict_update(self, st, d, src):
        src = self.deref(st, src)
        hd = st.heap[d.a]
        if isinstance(src, Ref) and isinstance(st.heap[src.a], HDict) and isinstance(hd, HDict):
            items = dict(hd.items)
            items.update(dict(st.heap[src.a].items))
            st.heap[d.a] = HDict(items.items())
            return [st]
        if isinstance(src, DocPtr) and isinstance(hd, HDict) and not hd.items:
            st.heap[d.a] = HDoc(self.doc_read(st, src))
            return [st]
        m = src if isinstance(src, MapVal) else st.heap[src.a].m if isinstance(src, Ref) and isinstance(st.heap[src.a], HMap) else None
        if m is not None and isinstance(hd, HDict) and not hd.items:
            st.heap[d.a] = HMap(m)
            return [st]
        raise Unsupported('dict update')

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                parts.append(p.value)

        def mk(s, vs):
            out, i = None, 0
            conc = True
            terms = []
            for p in e.values:
                if isinstance(p, ast.Constant):
                    terms.append(p.value)
                else:
                    v = vs[i]
                    i += 1
                    spec = ''
                    if p.format_spec is not None:
                        if all(isinstance(x, ast.Constant) for x in p.format_spec.values):
                            spec = ''.join(x.value for x in p.format_spec.values)
                        else:
                            spec = '?'
                    terms.append(self.fmt(s, v, spec, p.conversion))
            return [(s, self.concat(terms))]
        return self.bind(self.evs(parts, st, fr), mk)

    def concat(self, terms):
        flat, todo = [], list(terms)
        while todo:
            t = todo.pop(0)
            if isz(t) and t.decl().eq(u.cat):
                todo[:0] = t.children()
                continue
            if isz(t) and u.litval(t) is not None:
                t = u.litval(t)
            if isinstance(t, str) and flat and isinstance(flat[-1], str):
                flat[-1] += t
            elif isinstance(t, str) and t == '':
                continue
            else:
                flat.append(t)
        if not flat:
            return ''
        if len(flat) == 1:
            return flat[0]
        r = toStr(flat[-1])
        for t in reversed(flat[:-1]):
            r = u.cat(toStr(t), r)
        return r

    def fmt(self, st, v, spec='', conv=-1):
        v = self.deref(st, v)
        if isinstance(v, Maybe) and self.proves(st, Not(v.isnone)):
            v = v.val
        if conv in (-1, 115) and spec == '':
            if isinstance(v, str):
                return v
            if isinstance(v, bool) or v is None:
                return str(v)
            if isinstance(v, int):
                return str(v)
            if isz(v):
                if v.sort() == Str:
                    return v
                if v.sort() == IntS:
                    return u.int2str(v)
                if v.sort() == V:
                    return u.v2str(v)
        if isz(v):
            f = u.strfn(f'fmt:{spec}:{conv}:{v.sort()}', v.sort(), Str)
            return f(v)
        if isinstance(v, int) and not isinstance(v, bool) and conv == -1:
            return u.strfn(f'fmt:{spec}:{conv}:Int', IntS, Str)(z3.IntVal(v))
        return fresh('text', Str)     # only used in messages unless a contract looks at it

    merge = False       # whether conditions without effects are kept as one formula instead of one path per operand

    def merged(self, st, cond, run):
        """The truth of what `run` evaluates under cond, as a term of st, when it has no effect and cannot raise; else None."""
        if not (self.feasible(st, [cond]) and self.feasible(st, [Not(cond)])):
            return None
        n, no, np = len(st.pc), len(self.obligs), self.npaths
        s2 = st.fork()
        s2.assume(cond)
        n2 = len(s2.pc)
        rs = run(s2)
        ok = len(rs) == 1 and not isinstance(rs[0][1], Exc) and len(self.obligs) == no
        if ok:
            s3, r = rs[0]
            ok = (isinstance(r, bool) or isz(r) and r.sort() == BoolS) and all(s3.heap.get(a) is h for a, h in st.heap.items()) \
                and all(k in s3.frames and len(s3.frames[k]) == len(f) and all(s3.frames[k].get(x) is y for x, y in f.items()) for k, f in st.frames.items()) \
                and s3.ghost.keys() == st.ghost.keys() and all(s3.ghost[k] is st.ghost[k] for k in st.ghost) and s3.muts == st.muts
        if not ok:
            del self.obligs[no:]
            self.npaths = np
            return None
        for f in s3.pc[n2:]:
            st.assume(Implies(cond, f))
        return tobool(r)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(es, s):
            if len(es) == 1:
                return self.ev(es[0], s, fr)

            def f(s1, v):
                c = self.truth(s1, v)
                out = []
                if self.merge and isz(v) and v.sort() == BoolS:
                    m = self.merged(s1, v if isand else Not(v), lambda s2: go(es[1:], s2))
                    if m is not None:
                        return [(s1, And(v, m) if isand else Or(v, m))]
                for s2, b in self.split(s1, c):
                    if b == isand:
                        out += go(es[1:], s2)
                    else:
                        out.append((s2, v if not isz(v) or v.sort() != BoolS else (not isand)))
                return out
            return self.bind(self.ev(es[0], s, fr), f)
        return go(e.values, st)

    def e_UnaryOp(self, e, st, fr):
        def f(s, v):
            if isinstance(e.op, ast.Not):
                c = self.truth(s, v)
                return [(s, (not c) if isinstance(c, bool) else Not(c))]
            v2 = self.scalar(s, v)
            if isinstance(v2, (int, float)):
                return [(s, -v2 if isinstance(e.op, ast.USub) else +v2)]
            if isz(v2) and v2.sort() in (IntS, RealS):
                return [(s, -v2 if isinstance(e.op, ast.USub) else v2)]
            raise Unsupported('unary operator')
        return self.bind(self.ev(e.operand, st, fr), f)

    def scalar(self, st, v):
        if isinstance(v, DocPtr) or (isinstance(v, Ref) and isinstance(st.heap[v.a], (HDoc, Fwd))):
            return self.to_V(st, v)
        return v

    def e_BinOp(self, e, st, fr):
        return self.bind(self.evs([e.left, e.right], st, fr), lambda s, vs: self.binop(s, e.op, vs[0], vs[1], e))

    def binop(self, st, op, a, b, node):
        a, b = self.unwrap(st, a), self.unwrap(st, b)
        k = type(op).__name__
        h = self.ext.get('binop:' + k)
        if h is not None:
            r = h(self, st, a, b)
            if r is not None:
                return r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return [(st, {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                              'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Pow': lambda: a ** b}[k]())]
            except ZeroDivisionError:
                return self.raise_(st, 'ZeroDivisionError', node)
            except KeyError:
                raise Unsupported(f'operator {k}')
        if isnumt(a) and isnumt(b):
            x, y = toz(a), toz(b)
            if k == 'Add':
                return [(st, x + y)]
            if k == 'Sub':
                return [(st, x - y)]
            if k == 'Mult':
                return [(st, x * y)]
            if k == 'Div':
                out = []
                for s, z in self.split(st, y == 0):
                    if z:
                        out += self.raise_(s, 'ZeroDivisionError', node)
                    else:
                        xr = z3.ToReal(x) if x.sort() == IntS else x
                        yr = z3.ToReal(y) if y.sort() == IntS else y
                        out.append((s, xr / yr))
                return out
            if k in ('FloorDiv', 'Mod') and x.sort() == IntS and y.sort() == IntS and z3.is_int_value(y) and y.as_long() > 0:
                return [(st, x / y if k == 'FloorDiv' else x % y)]
            raise Unsupported(f'operator {k}')
        if k == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return [(st, a + b)]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            sa = isinstance(a, str) or isz(a) and a.sort() == Str
            sb = isinstance(b, str) or isz(b) and b.sort() == Str
            if sa and sb:
                return [(st, self.concat([a, b]))]
            qa, qb = self.as_list(st, a), self.as_list(st, b)
            if qa is not None and qb is not None:
                if isinstance(qa, HList) and isinstance(qb, HList):
                    return [(st, self.alloc(st, HList(qa.items + qb.items)))]
                q = self.to_seq(st, a)
                if isinstance(qb, HList):
                    for x in qb.items:
                        q = self.seq_snoc(st, q, x)
                    return [(st, self.alloc(st, HSeq(q)))]
        if k == 'Sub':
            sa, sb = self.as_set(st, a), self.as_set(st, b)
            if sa is not None and sb is not None:
                x = fresh('x', sa.sort().domain())
                v, g = SetVal(z3.Lambda([x], And(sa[x], Not(sb[x])))), getattr(a, 'gen', None)
                if g is not None:
                    v.gen = g[:3] + (And(g[3], Not(sb[g[2]])),)
                return [(st, v)]
        if k == 'Mult' and isinstance(a, str) and isz(b) or isinstance(a, str) and isinstance(b, int):
            return [(st, fresh('text', Str))]
        if isz(a) and a.sort() == V or isz(b) and b.sort() == V:
            return self.dyn_binop(st, k, a, b, node)
        raise Unsupported(f'operator {k} on {a!r}, {b!r}')

    def dyn_binop(self, st, k, a, b, node):
        raise Unsupported(f'operator {k} on dynamic values')

    def as_list(self, st, a):
        if isinstance(a, Ref):
            h = st.heap[a.a]
            if isinstance(h, (HList, HSeq)):
                return h
        return None

    def as_set(self, st, a):
        if isinstance(a, SetVal):
            return a.arr
        if isinstance(a, Ref) and isinstance(st.heap[a.a], HSSet):
            return st.heap[a.a].arr
        return None

    def unwrap(self, st, v):
        """Strip a Maybe that is provably not None; read document scalars."""
        if isinstance(v, Maybe):
            if self.proves(st, Not(v.isnone)):
                return v.val
            if self.proves(st, v.isnone):
                return None
            if self.solve_inv is not None and self.solve_inv(st.pc, Not(v.isnone)):
                st.assume(Not(v.isnone))
                return v.val
            raise Unsupported('possibly None value used')
        if isinstance(v, Choice):
            return v
        return self.scalar(st, v)

    def e_IfExp(self, e, st, fr):
        def f(s, v):
            out = []
            for s2, b in self.split(s, self.truth(s, v)):
                out += self.ev(e.body if b else e.orelse, s2, fr)
            return out
        return self.bind(self.ev(e.test, st, fr), f)

    def e_Compare(self, e, st, fr):
        def go(s, left, ops, rest, acc):
            if not ops:
                return [(s, acc)]

            def f(s1, r):
                def g(s2, c):
                    na = c if acc is True else (False if (acc is False or c is False) else (acc if c is True else And(tobool(acc), tobool(c))))
                    return go(s2, r, ops[1:], rest[1:], na)
                return self.bind(self.compare(s1, ops[0], left, r, e), g)
            return self.bind(self.ev(rest[0], s, fr), f)
        return self.bind(self.ev(e.left, st, fr), lambda s, l: go(s, l, e.ops, e.comparators, True))

    def neg(self, rs):
        return [(s, v if isinstance(v, Exc) else ((not v) if isinstance(v, bool) else Not(v))) for s, v in rs]

    def compare(self, st, op, a, b, node):
        k = type(op).__name__
        if k == 'Eq':
            return self.eq_op(st, a, b, node)
        if k == 'NotEq':
            return self.neg(self.eq_op(st, a, b, node))
        if k == 'Is':
            return [(st, self.is_(st, a, b))]
        if k == 'IsNot':
            return self.neg([(st, self.is_(st, a, b))])
        if k == 'In':
            return self.contains(st, a, b, node)
        if k == 'NotIn':
            return self.neg(self.contains(st, a, b, node))
        # order
        dunder = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[k]
        if isinstance(a, EnumMember) or isinstance(a, Choice) and all(isinstance(o, EnumMember) for o in a.options):
            outs = []
            for s, a1 in self.resolve_choice(st, a):
                for s2, b1 in self.resolve_choice(s, b):
                    f, _ = a1.cls.find(dunder)
                    if f is None:
                        outs += self.raise_(s2, 'TypeError', node)
                    else:
                        outs += self.call(s2, Bound(f, a1), [b1], {}, node)
            return outs
        a, b = self.unwrap(st, a), self.unwrap(st, b)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return [(st, {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[k])]
        if isnumt(a) and isnumt(b):
            x, y = toz(a), toz(b)
            return [(st, {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[k])]
        if a is None or b is None:
            return self.raise_(st, 'TypeError', node)
        if isz(a) and a.sort() == V or isz(b) and b.sort() == V:
            va, vb = self.to_V(st, a), self.to_V(st, b)
            out = []
            for s, ok in self.split(st, And(u.is_num(va), u.is_num(vb))):
                if ok:
                    x, y = u.num(va), u.num(vb)
                    out.append((s, {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[k]))
                else:
                    raise Unsupported('ordering of non-numbers')
            return out
        raise Unsupported(f'comparison {k} of {a!r}, {b!r}')

    def resolve_choice(self, st, v):
        if not isinstance(v, Choice):
            return [(st, v)]
        out = []
        for i, o in enumerate(v.options):
            if self.feasible(st, [v.tag == i]):
                s = st.fork()
                s.assume(v.tag == i)
                out.append((s, o))
        return out

    def eq_op(self, st, a, b, node):
        """== including user-defined __eq__ and dataclass equality through contracts."""
        a2 = self.deref(st, a)
        for x, y in ((a, b),):
            h = self.ext.get('eq')
            if h is not None:
                r = h(self, st, x, y)
                if r is not None:
                    return r
        return [(st, self.eq(st, a, b))]

    def is_(self, st, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if b is None or a is None:
            if a is None and b is None:
                return True
            x = a if b is None else b
            if isinstance(x, Maybe):
                return x.isnone
            if isinstance(x, DocPtr):
                x = self.doc_read(st, x)
            if isz(x) and x.sort() == V:
                return V.is_none(x)
            if isinstance(x, Choice):
                return Or([x.tag == i for i, o in enumerate(x.options) if o is None] + [z3.BoolVal(False)])
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.a == b.a
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(b, bool) else (b, a)
            if isz(x) and x.sort() == BoolS:
                return x if y else Not(x)
            if isz(x) and x.sort() == V:
                return x == V.bool(y)
            return x is y
        if isinstance(a, Ref) != isinstance(b, Ref):
            return False
        if isz(a) and isz(b) and a.sort() == b.sort() and a.sort() not in (IntS, RealS):
            if a.sort() == V:
                raise Unsupported('identity of dynamic values')
            return a == b
        if isinstance(a, (ClassVal, BType, Ext, EnumMember, ModVal)) or isinstance(b, (ClassVal, BType, Ext, EnumMember, ModVal)):
            return self.eq(st, a, b)
        if isinstance(a, (Choice, Maybe)) or isinstance(b, (Choice, Maybe)):
            return self.eq(st, a, b)
        if isinstance(a, str) or isinstance(b, str):
            return self.eq(st, a, b)
        if isinstance(a, DocPtr) and isinstance(b, DocPtr):
            p, q = self.doc_norm(st, a), self.doc_norm(st, b)
            if p.a == q.a and segs_eq(p.segs, q.segs):
                return True
        raise Unsupported(f'identity of {a!r} and {b!r}')

    def as_map(self, st, o):
        """The MapVal behind o, or None."""
        if isinstance(o, Ref) and isinstance(st.heap[o.a], HMap):
            return st.heap[o.a].m
        return o if isinstance(o, MapVal) else None

    def map_key(self, m, k):
        k = toStr(k) if m.ks == Str else toz(k)
        if not isz(k) or k.sort() != m.ks:
            raise Unsupported('dict key of another type')
        return k

    def map_write(self, st, a, m, k, v):
        ls = self.flatten(st, v, m.shape)
        leaves = [Store(x, k, l) for x, l in zip(m.leaves, ls)]
        if self.proves(st, m.has[k]):
            st.heap[a] = HMap(MapVal(m.ks, m.has, m.shape, leaves, m.n, m.keys))
            return
        new = MapVal(m.ks, Store(m.has, k, True), m.shape, leaves, If(m.has[k], m.n, m.n + 1), If(m.has[k], m.keys, Store(m.keys, m.n, k)))
        st.heap[a] = HMap(new)
        for f in new.facts():
            st.assume(f)

    def map_del(self, st, a, m, k):
        keys = fresh('keys', m.keys.sort())
        new = MapVal(m.ks, Store(m.has, k, False), m.shape, m.leaves, m.n - 1, keys)
        i = fresh('i', IntS)
        st.heap[a] = HMap(new)
        st.assume(u.forall([i], And(Implies(And(0 <= i, i < m.idx(k)), keys[i] == m.keys[i]),
                                    Implies(And(m.idx(k) <= i, i < m.n - 1), keys[i] == m.keys[i + 1])), keys[i]))
        for f in new.facts():
            st.assume(f)

    def contains(self, st, x, c, node):
        c = self.deref(st, c)
        h = self.ext.get('contains')
        if h is not None:
            r = h(self, st, x, c)
            if r is not None:
                return r
        if isinstance(c, Tup):
            return [(st, self.any_eq(st, x, c.items))]
        m = self.as_map(st, c)
        if m is not None:
            return [(st, m.has[self.map_key(m, self.unwrap(st, x))])]
        if isinstance(c, str):
            if isinstance(x, str):
                return [(st, x in c)]
            if isz(x) and x.sort() == Str:
                return [(st, u.strfn('substr', Str, Str, BoolS)(x, toStr(c)))]
        if isinstance(c, DocPtr):
            c = self.doc_read(st, c)
        if isinstance(c, Ref):
            hc = st.heap[c.a]
            if isinstance(hc, (HList, HSet)):
                return [(st, self.any_eq(st, x, hc.items))]
            if isinstance(hc, HDict):
                return [(st, self.any_eq(st, x, [k for k, _ in hc.items]))]
            if isinstance(hc, HSeq):
                c = hc.seq
            elif isinstance(hc, HSSet):
                c = SetVal(hc.arr)
            elif isinstance(hc, HObj):
                f, _ = hc.cls.find('__contains__') if isinstance(hc.cls, ClassVal) else (None, None)
                if f is None:
                    return self.raise_(st, 'TypeError', node)
                return self.call(st, Bound(f, c), [x], {}, node)
        if isinstance(c, SetVal):
            d = c.arr.sort().domain()
            x2 = self.unwrap(st, x)
            if d == Str:
                return [(st, c.arr[toStr(x2)])]
            if d == V:
                xv = self.to_V(st, x2)
                out = []
                for s, bad in self.split(st, Or(V.is_lst(xv), V.is_dict(xv))):
                    out += self.raise_(s, 'TypeError', node) if bad else [(s, c.arr[xv])]
                return out
        if isinstance(c, Seq):
            i = fresh('i', IntS)
            el = c.at(i)
            return [(st, z3.Exists([i], And(0 <= i, i < c.n, tobool(self.eq(st, el, x)))))]
        if isz(c):
            if c.sort() == Str:
                xs = self.unwrap(st, x)
                if isinstance(xs, str) or isz(xs) and xs.sort() == Str:
                    return [(st, u.strfn('substr', Str, Str, BoolS)(toStr(xs), c))]
                raise Unsupported('in on a string')
            if c.sort() == V:
                xs = self.unwrap(st, x)
                if not (isinstance(xs, str) or (isz(xs) and xs.sort() == Str)):
                    raise Unsupported('non-string key')
                k = toStr(xs)
                out = []
                for s, isd in self.split(st, V.is_dict(c)):
                    if isd:
                        out.append((s, V.m(c)[k] != V.absent))
                        continue
                    if self.proves(s, V.is_str(c)):
                        out.append((s, u.strfn('substr', Str, Str, BoolS)(k, V.s(c))))
                        continue
                    for s2, it in self.split(s, Or(V.is_lst(c), V.is_tup(c), V.is_str(c), V.is_nt(c))):
                        if it:
                            out.append((s2, fresh('in', BoolS)))
                        else:
                            out += self.raise_(s2, 'TypeError', node)
                return out
        raise Unsupported(f'in on {c!r}')

    def any_eq(self, st, x, items):
        cs = [self.eq(st, x, y) for y in items]
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        return Or(cs) if cs else False

    def e_Lambda(self, e, st, fr):
        return [(st, FnVal(e, fr.mod, f'{fr.fn.qual if fr.fn else fr.mod.name + ":"}.<lambda>', fid=fr.fid if fr.fn else None))]

    def e_Attribute(self, e, st, fr):
        return self.bind(self.ev(e.value, st, fr), lambda s, v: self.getattr(s, v, e.attr, e))

    def getattr(self, st, v, name, node=None, default=None):
        v = self.deref(st, v)
        if isinstance(v, ModVal):
            m = self.repo.modules.get(v.name)
            if m is not None:
                ov = self.ext.get(f'global:{m.name}:{name}')
                if ov is not None:
                    return [(st, ov(self, st) if callable(ov) else ov)]
                x = self.repo.lookup(m, name)
                if x is not None:
                    return [(st, self.const_value(x, st) if isinstance(x, tuple) else x)]
            if f'{v.name}.{name}' in self.repo.modules:
                return [(st, ModVal(f'{v.name}.{name}'))]
            raise Unsupported(f'{v.name}.{name}')
        if isinstance(v, Ext):
            c = self.ext.get(f'const:{v.name}.{name}')
            if c is not None:
                return [(st, c)]
            return [(st, self.repo.ext_name(f'{v.name}.{name}'))]
        if isinstance(v, Ref):
            h = st.heap[v.a]
            if isinstance(h, HObj):
                return self.obj_attr(st, v, h.cls, h.attrs, name, node)
            return [(st, Bound(Ext('method.' + name), v))]
        if isinstance(v, Rec):
            return self.obj_attr(st, v, v.cls, v.attrs, name, node)
        if isinstance(v, ClassVal):
            if v.isenum:
                f, _ = v.find(name)
                if isinstance(f, tuple):
                    return [(st, EnumMember(v, name, self.const_value(f, st)))]
            if name == '__name__':
                return [(st, v.name)]
            if name == '__dataclass_fields__' and v.isdataclass:
                return [(st, self.alloc(st, HDict((f[0], Rec(Ext('dataclasses.Field'), {'name': f[0]})) for f in v.allfields())))]
            f, owner = v.find(name)
            if f is None:
                return self.raise_(st, 'AttributeError', node)
            if isinstance(f, tuple):
                return [(st, self.const_value(f, st))]
            return [(st, Bound(f, v) if f.kind == 'classmethod' else f)]
        if isinstance(v, EnumMember):
            if name == 'value':
                return [(st, v.value)]
            if name == 'name':
                return [(st, v.name)]
            f, _ = v.cls.find(name)
            if f is not None:
                return [(st, Bound(f, v))]
        if isinstance(v, Maybe):
            out = []
            for s, isn in self.split(st, v.isnone):
                out += self.raise_(s, 'AttributeError', node) if isn else self.getattr(s, v.val, name, node)
            return out
        if isinstance(v, Choice):
            out = []
            for s, o in self.resolve_choice(st, v):
                out += self.getattr(s, o, name, node)
            return out
        if isz(v):
            h = self.attrs.get(v.sort().name())
            if h is not None:
                r = h(self, st, v, name)
                if r is not None:
                    return r
            if v.sort() in (Str, V, IntS, RealS):
                return [(st, Bound(Ext('method.' + name), v))]
        if isinstance(v, DocPtr) and 'V' in self.attrs:
            r = self.attrs['V'](self, st, self.doc_read(st, v), name)
            if r is not None:
                return r
        if isinstance(v, (DocPtr, Tup, Seq, SetVal, MapVal, str)):
            return [(st, Bound(Ext('method.' + name), v))]
        if isinstance(v, (Exc, ExcVal)):
            x = v.attrs.get(name)
            if isinstance(x, Shape):        # (one of several: not known which)
                x = x.build([fresh(name, y) for y in x.sorts()])
            if name in v.attrs:
                return [(st, x)]
        if v is None:
            return self.raise_(st, 'AttributeError', node)
        if isinstance(v, SuperVal) and v.fr.fn is not None and v.fr.fn.cls is not None:
            me = st.frames[v.fr.fid][v.fr.fn.node.args.args[0].arg]
            h = st.heap[me.a] if isinstance(me, Ref) else None
            if isinstance(h, HObj) and isinstance(h.cls, ClassVal):
                mro = h.cls.mro()
                for c in mro[mro.index(v.fr.fn.cls) + 1:]:
                    if isinstance(c, ClassVal) and name in c.members and isinstance(c.members[name], FnVal):
                        return [(st, Bound(c.members[name], me))]
                    if isinstance(c, BType) and name == '__init__':
                        return [(st, Lam(name, lambda ex, s, a, k, n: [(s, None)]))]
        if isinstance(v, BType) and name in ('__name__',):
            return [(st, v.name)]
        if isinstance(v, Bound) and isinstance(v.fn, Ext):
            pass
        raise Unsupported(f'attribute {name} of {v!r}')

    def obj_attr(self, st, v, cls, attrs, name, node):
        if name in attrs:
            return [(st, attrs[name])]
        if name == '__class__':
            return [(st, cls)]
        if isinstance(cls, ClassVal):
            f, owner = cls.find(name)
            if f is not None:
                if isinstance(f, tuple):
                    return [(st, self.const_value(f, st))]
                if f.kind == 'property':
                    return self.call(st, Bound(f, v), [], {}, node)
                if f.kind == 'staticmethod':
                    return [(st, f)]
                return [(st, Bound(f, cls if f.kind == 'classmethod' else v))]
            if name == '__dataclass_fields__':
                return self.getattr(st, cls, name, node)
        h = self.ext.get(f'attr:{clsname(cls)}.{name}')
        if h is not None:
            return h(self, st, v)
        h = self.ext.get(f'attr:{clsname(cls)}.*')
        if h is not None:
            r = h(self, st, v, name)
            if r is not None:
                return r
        return self.raise_(st, 'AttributeError', node)

    def e_Subscript(self, e, st, fr):
        if isinstance(e.slice, ast.Slice):
            def f(s, vs):
                it = iter(vs)
                o = next(it)
                lo = next(it) if e.slice.lower is not None else None
                hi = next(it) if e.slice.upper is not None else None
                stp = next(it) if e.slice.step is not None else None
                return self.slice(s, o, lo, hi, stp, e)
            es = [e.value] + [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
            return self.bind(self.evs(es, st, fr), f)
        return self.bind(self.evs([e.value, e.slice], st, fr), lambda s, vs: self.getitem(s, vs[0], vs[1], e))

    def slice(self, st, o, lo, hi, stp, node):
        if stp is not None:
            raise Unsupported('slice with a step')
        o = self.deref(st, o)
        if isinstance(o, Maybe):
            o = self.unwrap(st, o)
        if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return [(st, o[lo:hi])]
        if isinstance(o, Tup) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return [(st, Tup(o.items[lo:hi]))]
        ref = isinstance(o, Ref)
        if ref and isinstance(st.heap[o.a], HList) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return [(st, self.alloc(st, HList(st.heap[o.a].items[lo:hi])))]
        if isz(o) and o.sort() == Str:
            f = u.strfn(f'slice:{0 if lo is None else lo}:{hi}', Str, Str)
            if all(x is None or isinstance(x, int) for x in (lo, hi)):
                return [(st, f(o))]
        try:
            q = self.to_seq(st, o)
        except Unsupported:
            q = None
        if q is not None:
            n = q.n if isz(q.n) else z3.IntVal(q.n)

            def clamp(x, d):
                if x is None:
                    return d
                x = toz(x)
                x = If(x < 0, x + n, x)
                return If(x < 0, z3.IntVal(0), If(x > n, n, x))
            a, b = clamp(lo, z3.IntVal(0)), clamp(hi, n)
            m = If(b > a, b - a, z3.IntVal(0))
            m = z3.simplify(m)
            a = z3.simplify(a)
            m = self.simp_under(st, m, [n, n - 1, n - 2, z3.IntVal(0)])
            off = q.off
            if z3.is_int_value(a):
                a = a.as_long()
            noff = (off + a) if not (isinstance(off, int) and off == 0) else a
            r = Seq(m, q.shape, q.leaves, noff, q.kind)
            return [(st, self.alloc(st, HSeq(r)) if ref else r)]
        raise Unsupported(f'slice of {o!r}')

    def simp_under(self, st, t, cands):
        for c in cands:
            c = z3.simplify(c)
            if t.eq(c) or self.proves(st, t == c):
                return c
        return t

    def to_seq(self, st, o):
        """Any list-like as an immutable Seq."""
        if isinstance(o, Seq):
            return o
        if isinstance(o, Ref):
            h = st.heap[o.a]
            if isinstance(h, HSeq):
                return h.seq
            if isinstance(h, HList):
                return self.items_seq(st, h.items, 'list')
        if isinstance(o, Tup):
            return self.items_seq(st, o.items, 'tuple')
        if isinstance(o, SetVal):
            return self.set_seq(st, o)
        if isinstance(o, DocPtr):
            o = self.doc_read(st, o)
        if isz(o) and o.sort() == V:
            if self.proves(st, V.is_lst(o)):
                return Seq(V.ln(o), SLeaf(V), [V.la(o)], 0, 'list')
            if self.proves(st, V.is_tup(o)):
                return Seq(V.tn(o), SLeaf(V), [V.ta(o)], 0, 'tuple')
        raise Unsupported(f'not a sequence: {o!r}')

    def items_seq(self, st, items, kind):
        if not items:
            return Seq(0, None, [], 0, kind)
        shape = None
        for x in items:
            sh = self.shape_of(st, x)
            shape = sh if shape is None else self.join_shape(shape, sh)
        leaves = [z3.K(IntS, default_of(s)) for s in shape.sorts()]
        for i, x in enumerate(items):
            ls = self.flatten(st, x, shape)
            leaves = [Store(a, i, l) for a, l in zip(leaves, ls)]
        return Seq(len(items), shape, leaves, 0, kind)

    def seq_snoc(self, st, q, x):
        sh = self.shape_of(st, x)
        if q.shape is None:
            shape = sh
            leaves = [z3.K(IntS, default_of(s)) for s in shape.sorts()]
        else:
            shape = self.join_shape(q.shape, sh)
            if shape_eq(shape, q.shape):
                leaves = q.leaves
            else:
                leaves = self.reshape(q, shape)
        if not (isinstance(q.off, int) and q.off == 0):
            raise Unsupported('append to a slice view')
        n = q.n if isz(q.n) else z3.IntVal(q.n)
        ls = self.flatten(st, x, shape)
        return Seq(z3.simplify(n + 1), shape, [Store(a, n, l) for a, l in zip(leaves, ls)], 0, q.kind)

    def reshape(self, q, shape):
        if isinstance(q.n, int) and q.n == 0:
            return [z3.K(IntS, default_of(s)) for s in shape.sorts()]
        i = fresh('i', IntS)
        ls = self.flatten_val(q.at(i), shape)
        return [z3.Lambda([i], l) for l in ls]

    def getitem(self, st, o, k, node):
        o = self.deref(st, o)
        h = self.ext.get('getitem')
        if h is not None:
            r = h(self, st, o, k)
            if r is not None:
                return r
        if isinstance(o, Maybe):
            out = []
            for s, isn in self.split(st, o.isnone):
                out += self.raise_(s, 'TypeError', node) if isn else self.getitem(s, o.val, k, node)
            return out
        if isinstance(o, Choice):
            out = []
            for s, x in self.resolve_choice(st, o):
                out += self.getitem(s, x, k, node)
            return out
        if isinstance(o, (Ext, BType, ClassVal)):
            return [(st, o)]     # subscripted annotation
        k = self.unwrap(st, k)
        m = self.as_map(st, o)
        if m is not None:
            out = []
            kz = self.map_key(m, k)
            for s, b in self.split(st, m.has[kz]):
                if b:
                    v = m.at(kz)
                    for x in ([v] if isinstance(v, (Seq, MapVal)) else []):
                        for f in (x.facts() if isinstance(x, MapVal) else [x.n >= 0]):
                            s.assume(f)
                    out.append((s, v))
                else:
                    out += self.raise_(s, 'KeyError', node)
            return out
        if isinstance(o, Ref):
            ho = st.heap[o.a]
            if isinstance(ho, HDict):
                if isinstance(k, (str, int, EnumMember)) or k is None:
                    if ho.has(k):
                        return [(st, ho.get(k))]
                    return self.raise_(st, 'KeyError', node)
                out = []
                rest = st
                for kk, vv in ho.items:
                    c = self.eq(rest, k, kk)
                    nxt = None
                    for s, b in self.split(rest, c):
                        if b:
                            out.append((s, vv))
                        else:
                            nxt = s
                    if nxt is None:
                        return out
                    rest = nxt
                return out + self.raise_(rest, 'KeyError', node)
            if isinstance(ho, HList):
                o = Tup(ho.items)
            elif isinstance(ho, HSeq):
                o = ho.seq
            elif isinstance(ho, HObj) and isinstance(ho.cls, ClassVal):
                f, _ = ho.cls.find('__getitem__')
                if f is None:
                    return self.raise_(st, 'TypeError', node)
                return self.call(st, Bound(f, o), [k], {}, node)
        if isinstance(o, Tup):
            if isinstance(k, int):
                if -len(o.items) <= k < len(o.items):
                    return [(st, o.items[k])]
                return self.raise_(st, 'IndexError', node)
            o = self.items_seq(st, o.items, 'tuple')
        if isinstance(o, Seq) or (isz(o) and o.sort() == V and not isinstance(k, str) and isnumt(k)):
            if not isinstance(o, Seq):
                o = self.to_seq(st, o)
            n = o.n if isz(o.n) else z3.IntVal(o.n)
            kz = toz(k)
            if o.shape is None:
                return self.raise_(st, 'IndexError', node)
            if isinstance(k, int):
                idx = z3.IntVal(k) if k >= 0 else z3.simplify(n + k)
                cond = n > k if k >= 0 else n >= -k
            else:
                if self.proves(st, kz >= 0):
                    idx, cond = kz, kz < n
                else:
                    idx, cond = If(kz < 0, kz + n, kz), And(kz < n, kz >= -n)
            out = []
            for s, ok in self.split(st, cond):
                out += [(s, o.at(z3.simplify(idx)))] if ok else self.raise_(s, 'IndexError', node)
            return out
        if isz(o) and o.sort() == Str and isnumt(k):
            n, kz, out = self.str_len(st, o), toz(k), []
            for s, ok in self.split(st, And(kz < n, kz >= -n)):
                out += [(s, u.strfn('char', Str, IntS, Str)(o, z3.simplify(If(kz < 0, kz + n, kz))))] if ok else self.raise_(s, 'IndexError', node)
            return out
        if isinstance(o, str):
            if isinstance(k, int):
                return [(st, o[k])] if -len(o) <= k < len(o) else self.raise_(st, 'IndexError', node)
        if isinstance(o, DocPtr) or (isz(o) and o.sort() == V):
            ptr = o if isinstance(o, DocPtr) else None
            v = self.doc_read(st, o) if ptr is not None else o
            if not (isinstance(k, str) or (isz(k) and k.sort() == Str)):
                raise Unsupported('non-string key')
            ks = toStr(k)
            out = []
            for s, isd in self.split(st, V.is_dict(v)):
                if not isd:
                    out += self.raise_(s, 'TypeError', node)
                    continue
                for s2, has in self.split(s, V.m(v)[ks] != V.absent):
                    if not has:
                        out += self.raise_(s2, 'KeyError', node)
                    else:
                        out.append((s2, self.doc_child(s2, ptr, ks) if ptr is not None else V.m(v)[ks]))
            return out
        if o is None or isinstance(o, (int, float, bool)):
            return self.raise_(st, 'TypeError', node)
        raise Unsupported(f'subscript of {o!r}')

    def e_Slice(self, e, st, fr):
        raise Unsupported('slice')

    def e_Starred(self, e, st, fr):
        raise Unsupported('starred')

    def e_NamedExpr(self, e, st, fr):
        return self.bind(self.ev(e.value, st, fr), lambda s, v: [(self.setname(s, fr, e.target.id, v), v)])

    def setname(self, st, fr, name, v):
        st.frames[fr.fid][name] = v
        return st

    # ---- comprehensions -------------------------------------------------------------------------------------------
    def e_ListComp(self, e, st, fr):
        return self.bind(self.comp(e, [e.elt], st, fr), lambda s, q: [(s, self.alloc(s, HList([x[0] for x in q[1]]) if q[0] == 'c' else HSeq(q[1])))])

    def e_GeneratorExp(self, e, st, fr):
        return self.bind(self.comp(e, [e.elt], st, fr), lambda s, q: [(s, Tup([x[0] for x in q[1]]) if q[0] == 'c' else q[1])])

    def e_SetComp(self, e, st, fr):
        return self.bind(self.comp(e, [e.elt], st, fr), lambda s, q: [(s, self.alloc(s, HSet([x[0] for x in q[1]])) if q[0] == 'c' else self.seq_set(s, q[1]))])

    def seq_set(self, st, q):
        if q.shape is not None and isinstance(q.shape, SLeaf):
            x = fresh('x', q.shape.sort)
            i = fresh('i', IntS)
            e = q.at(i)
            v = SetVal(z3.Lambda([x], z3.Exists([i], And(0 <= i, i < q.n, u.pyeq(e, x) if e.sort() == V else e == x))))
            v.gen = (q.n, i, e, z3.BoolVal(True))
            return v
        raise Unsupported('set of symbolic elements')

    def e_DictComp(self, e, st, fr):
        def mk(s, q):
            if q[0] == 'c':
                cur = [(s, self.alloc(s, HDict(())))]
                for k, v in q[1]:
                    nxt = []
                    for s1, d in cur:
                        nxt += [(s2, r if isinstance(r, Exc) else d) for s2, r in self.setitem(s1, d, k, v, e)]
                    cur = nxt
                return cur
            return [(s, q[1])]
        return self.bind(self.comp(e, [e.key, e.value], st, fr, pair=True), mk)

    def comp(self, e, elts, st, fr, pair=False):
        """('c', [[values]]) for concrete iteration, ('s', Seq) for symbolic."""
        if len(e.generators) != 1:
            return self.comp_multi(e, elts, st, fr)
        g = e.generators[0]

        def f(s, it):
            r = self.iterate(s, it, e)
            if r[0] == 'c':
                return self.comp_conc(g, elts, s, fr, r[1])
            return self.comp_sym(e, g, elts, s, fr, r[1], r[2], pair)
        return self.bind(self.ev(g.iter, st, fr), f)

    def comp_multi(self, e, elts, st, fr):
        raise Unsupported('nested comprehension')

    def comp_conc(self, g, elts, st, fr, items):
        cf = self.new_frame(st, fr.fn, fr.mod, parent=fr.fid)
        cur = [(st, [])]
        for x in items:
            nxt = []
            for s, acc in cur:
                if isinstance(acc, Exc):
                    nxt.append((s, acc))
                    continue

                def body(s1, _):
                    out = [(s1, True)]
                    for c in g.ifs:
                        o2 = []
                        for s2, b in out:
                            if b is not True:
                                o2.append((s2, b))
                                continue
                            for s3, v in self.ev(c, s2, cf):
                                if isinstance(v, Exc):
                                    o2.append((s3, v))
                                else:
                                    o2 += self.split(s3, self.truth(s3, v))
                        out = o2
                    res = []
                    for s2, b in out:
                        if isinstance(b, Exc):
                            res.append((s2, b))
                        elif not b:
                            res.append((s2, acc))
                        else:
                            res += [(s3, v if isinstance(v, Exc) else acc + [v]) for s3, v in self.evs(elts, s2, cf)]
                    return res
                nxt += self.bind(self.assign_target(s, cf, g.target, x), body)
            cur = nxt
        return [(s, a if isinstance(a, Exc) else ('c', a)) for s, a in cur]

    def comp_body(self, g, elts, st, fr, n, elem):
        """Run the body at a symbolic index: (i, normal paths [(extra pc, values)], exception paths, kept?)."""
        s = st.fork()
        base = len(s.pc)
        mark = u._fresh[0]
        i = fresh('ix', IntS)
        s.assume(And(0 <= i, i < n))
        x = elem(s, i)
        cf = self.new_frame(s, fr.fn, fr.mod, parent=fr.fid)
        heap0 = dict(s.heap)
        oks, excs, skips = [], [], []
        for s1, r in self.assign_target(s, cf, g.target, x):
            if isinstance(r, Exc):
                excs.append((s1, r))
                continue
            cur = [(s1, True)]
            for c in g.ifs:
                nxt = []
                for s2, b in cur:
                    if b is not True:
                        nxt.append((s2, b))
                        continue
                    for s3, v in self.ev(c, s2, cf):
                        nxt += [(s3, v)] if isinstance(v, Exc) else self.split(s3, self.truth(s3, v))
                cur = nxt
            for s2, b in cur:
                if isinstance(b, Exc):
                    excs.append((s2, b))
                elif not b:
                    skips.append(s2)
                else:
                    for s3, v in self.evs(elts, s2, cf):
                        (excs if isinstance(v, Exc) else oks).append((s3, v))
        for s1 in [a for a, _ in oks] + skips:
            for a, h in heap0.items():
                if s1.heap.get(a) is not h and not (isinstance(h, HDoc) and isinstance(s1.heap.get(a), HDoc) and s1.heap[a].root.eq(h.root)):
                    raise Unsupported('comprehension with side effects')
        return i, base, mark, oks, excs, skips

    def comp_sym(self, e, g, elts, st, fr, n, elem, pair):
        nz = n if isz(n) else z3.IntVal(n)
        i, base, mark, oks, excs, skips = self.comp_body(g, elts, st, fr, nz, elem)
        out = []
        for s1, x in excs:
            if self.feasible(s1):
                out.append((s1, x))
        if pair:
            return out + self.comp_dict(st, i, base, mark, oks, skips, nz)
        if skips:
            return out + self.comp_filter(e, g, elts, st, fr, nz, elem, i, base, mark, oks, skips)
        if not oks:
            st.assume(nz == 0)
            return out + [(st, ('s', Seq(0, None, [], 0, 'list')))]
        shape = None
        for s1, vs in oks:
            sh = self.shape_of(s1, vs[0] if len(vs) == 1 else Tup(vs))
            shape = sh if shape is None else self.join_shape(shape, sh)
        leaves = [fresh('elems', z3.ArraySort(IntS, s)) for s in shape.sorts()]
        alts = []
        for s1, vs in oks:
            ls = self.flatten(s1, vs[0] if len(vs) == 1 else Tup(vs), shape)
            alts.append(And([p for p in s1.pc[base:]] + [a[i] == l for a, l in zip(leaves, ls)]))
        body = alts[0] if len(alts) == 1 else Or(alts)
        body = self.skolem(body, i, mark, leaves)
        pats = [a[i] for a in leaves]
        x = elem(st.fork(), i)
        if isz(x) and z3.is_select(x) and x.arg(1).eq(i):
            pats.append(x)
        st.assume(u.forall([i], Implies(And(0 <= i, i < nz), body), *pats))
        q = Seq(n, shape, leaves, 0, 'list')
        if len(oks) == 1:
            # each element as a function of its index, when it is one
            s1, vs = oks[0]
            ls = self.flatten(s1, vs[0] if len(vs) == 1 else Tup(vs), shape)
            if not any(self.skolem(l, i, mark) is not l for l in ls):
                q.defn = [z3.Lambda([i], l) for l in ls]
        return out + [(st, ('s', q))]

    def comp_dict(self, st, i, base, mark, oks, skips, n):
        """{k: v for ...} over the keys of a dict: the keys stay distinct, so each iteration writes its own entry."""
        key = mv = None
        for s1, vs in oks:
            k = self.unwrap(s1, vs[0])
            if isz(k) and z3.is_select(k) and k.arg(1).eq(i) and (key is None or k.eq(key)):
                mv = self.keymaps(k.arg(0)) or mv
            if mv is None and not (isz(k) and k.sort() == Str and k.decl().eq(u.kat) and k.arg(1).eq(i)) or key is not None and not k.eq(key):
                raise Unsupported('dict comprehension over a symbolic sequence, with computed keys')
            key = k
        if key is None:
            st.assume(n == 0) if not skips else None
            return [(st, ('s', self.alloc(st, HDict(()))))]
        m = key.arg(0)
        r = fresh('dictcomp', u.M)
        alts = [And([p for p in s1.pc[base:]] + [Select(r, key) == self.to_V(s1, vs[1])]) for s1, vs in oks]
        alts += [And([p for p in s1.pc[base:]] + [Select(r, key) == V.absent]) for s1 in skips]
        body = self.skolem(alts[0] if len(alts) == 1 else Or(alts), i, mark, [r])
        st.assume(u.forall([i], Implies(And(0 <= i, i < n), body), key))
        k = fresh('k', Str)
        # by key as well: key k comes at position kidx(m, k)
        byk = z3.substitute(body, (key, k))
        if mv is not None:
            st.assume(u.forall([k], If(mv.has[k], z3.substitute(byk, (i, mv.idx(k))), r[k] == V.absent), r[k], mv.has[k]))
            return [(st, ('s', self.newdoc(st, V.dict(r))))]
        byk = z3.substitute(byk, (i, u.kidx(m, k)))
        st.assume(u.forall([k], If(m[k] == V.absent, r[k] == V.absent, byk), r[k], m[k]))
        if not skips:
            j = fresh('j', IntS)
            st.assume(u.klen(r) == u.klen(m))
            st.assume(u.forall([j], Implies(And(0 <= j, j < n), u.kat(r, j) == u.kat(m, j)), u.kat(r, j)))
        return [(st, ('s', self.newdoc(st, V.dict(r))))]

    def comp_filter(self, *a):
        raise Unsupported('filtered comprehension over a symbolic sequence')

    def skolem(self, f, i, mark, keep=()):
        """Constants created while running the body depend on the index: make them functions of it."""
        names = {}
        keep = {t.decl().name() for t in keep}
        seen = set()
        stack = [f]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                stack.append(t.body())
            elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in t.decl().name():
                try:
                    num = int(t.decl().name().rsplit('!', 1)[1])
                except ValueError:
                    continue
                if num > mark and not t.eq(i) and t.decl().name() not in keep:
                    names[t.decl().name()] = t
            else:
                stack.extend(t.children())
        subs = []
        for nm, t in names.items():
            if nm.startswith('elems!') or nm.startswith('boxed!'):
                pass
            subs.append((t, z3.Function(nm + '@', IntS, t.sort())(i)))
        return z3.substitute(f, *subs) if subs else f


    # ---- iteration ------------------------------------------------------------------------------------------------
    def iterate(self, st, v, node):
        """('c', [items]) or ('s', length, elem(st, i))."""
        v = self.deref(st, v)
        if isinstance(v, Maybe):
            v = self.unwrap(st, v)
        h = self.ext.get('iterate')
        if h is not None:
            r = h(self, st, v)
            if r is not None:
                return r
        m = self.as_map(st, v)
        if m is not None:
            return ('s', m.n, lambda s, i: m.keys[toz(i)])
        if isinstance(v, Tup):
            return ('c', list(v.items))
        if isinstance(v, str):
            return ('c', list(v))
        if isinstance(v, Ref):
            ho = st.heap[v.a]
            if isinstance(ho, (HList, HSet)):
                return ('c', list(ho.items))
            if isinstance(ho, HDict):
                return ('c', [k for k, _ in ho.items])
            if isinstance(ho, HSeq):
                v = ho.seq
        if isinstance(v, Seq):
            n = v.n
            if isinstance(n, int) or z3.is_int_value(n):
                nn = n if isinstance(n, int) else n.as_long()
                if nn == 0:
                    return ('c', [])
                return ('c', [v.at(j) for j in range(nn)])
            return ('s', n, lambda s, i: v.at(i))
        if isinstance(v, IterSpec):
            if isinstance(v.n, int):
                return ('c', [v.elem(st, j) for j in range(v.n)])
            return ('s', v.n, v.elem)
        if isinstance(v, DocPtr):
            t = self.doc_read(st, v)
            if self.proves(st, V.is_dict(t)):
                return ('s', u.klen(V.m(t)), lambda s, i: u.kat(V.m(t), i))
            v = t
        if isz(v) and v.sort() == Str:
            n = self.str_len(st, v)
            return ('s', n, lambda s, i: u.strfn('char', Str, IntS, Str)(v, toz(i)))
        if isz(v) and v.sort() == V:
            if self.proves(st, V.is_dict(v)):
                return ('s', u.klen(V.m(v)), lambda s, i: u.kat(V.m(v), i))
            q = self.to_seq(st, v)
            return ('s', q.n, lambda s, i: q.at(i))
        if isinstance(v, Ref) and isinstance(st.heap[v.a], HSSet):
            v = SetVal(st.heap[v.a].arr)
        if isinstance(v, SetVal):
            q = self.set_seq(st, v)
            return ('s', q.n, lambda s, i: q.at(i))
        raise Unsupported(f'iteration over {v!r}')

    def str_len(self, st, v):
        n = u.strfn('strlen', Str, IntS)(v)
        st.assume(n >= 0)
        st.assume((n == 0) == (v == lit('')))
        return n

    def set_seq(self, st, v):
        """The members of a set in some order that is a function of the set."""
        d = v.arr.sort().domain()
        A = v.arr.sort()
        n = u.strfn(f'set.len:{d}', A, IntS)(v.arr)
        at = u.strfn(f'set.seq:{d}', A, z3.ArraySort(IntS, d))(v.arr)
        idx = u.strfn(f'set.idx:{d}', A, d, IntS)
        i, x = fresh('i', IntS), fresh('x', d)
        st.assume(n >= 0)
        st.assume(u.forall([i], Implies(And(0 <= i, i < n), And(Select(v.arr, at[i]), TRUE if d == V else idx(v.arr, at[i]) == i)), at[i]))
        same = And(u.pyeq(at[idx(v.arr, x)], x), u.pyeq(x, at[idx(v.arr, x)])) if d == V else at[idx(v.arr, x)] == x
        st.assume(u.forall([x], Implies(Select(v.arr, x), And(0 <= idx(v.arr, x), idx(v.arr, x) < n, same)), Select(v.arr, x)))
        return Seq(n, SLeaf(d), [at], 0, 'list')

    def concrete_iter(self, st, v):
        r = self.iterate(st, v, None)
        if r[0] != 'c':
            raise Unsupported('unpacking a sequence of symbolic length')
        return r[1]

    # ---- calls --------------------------------------------------------------------------------------------------------
    def e_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            h = self.ext.get('builtins.super')
            return self.bind(self.evs(e.args, st, fr), lambda s, vs: h(self, s, vs, {}, e) if h else [(s, SuperVal(fr, vs))])

        def f(s, fn):
            kws = [k for k in e.keywords]

            def g(s1, vs):
                npos = len(vs) - len(kws)
                args, kwargs = vs[:npos], {}
                for k, v in zip(kws, vs[npos:]):
                    if k.arg is None:
                        vd = self.deref(s1, v)
                        if isinstance(vd, Ref) and isinstance(s1.heap[vd.a], HDict):
                            for kk, vv in s1.heap[vd.a].items:
                                kwargs[kk] = vv
                        else:
                            kwargs['**'] = v
                    else:
                        kwargs[k.arg] = v
                return self.call(s1, fn, args, kwargs, e, fr)
            # evaluate positional (with stars) then keywords
            def both(s1):
                out = []
                for s2, a in self.evs(e.args, s1, fr):
                    if isinstance(a, Exc):
                        out.append((s2, a))
                        continue
                    for s3, b in self.evs([k.value for k in kws], s2, fr):
                        out.append((s3, b if isinstance(b, Exc) else a + b))
                return out
            return self.bind(both(s), g)
        return self.bind(self.ev(e.func, st, fr), f)

    def call(self, st, fn, args, kwargs, node, fr=None):
        if isinstance(fn, Builtin):
            return fn.handler(self, st, args, kwargs, node)
        if isinstance(fn, Lam):
            return fn.f(self, st, args, kwargs, node)
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Ext):
                name = fn.fn.name
                h = self.ext.get(name)
                if h is None:
                    raise Unsupported(f'{name} on {fn.self_!r}')
                return h(self, st, [fn.self_] + list(args), kwargs, node)
            return self.call(st, fn.fn, [fn.self_] + list(args), kwargs, node, fr)
        if isinstance(fn, Choice):
            out = []
            for s, f in self.resolve_choice(st, fn):
                out += self.call(s, f, args, kwargs, node, fr)
            return out
        if isinstance(fn, Maybe):
            out = []
            for s, isn in self.split(st, fn.isnone):
                out += self.raise_(s, 'TypeError', node) if isn else self.call(s, fn.val, args, kwargs, node, fr)
            return out
        if isinstance(fn, FnVal):
            return self.call_fn(st, fn, args, kwargs, node)
        if isinstance(fn, ClassVal):
            return self.instantiate(st, fn, args, kwargs, node)
        if isinstance(fn, BType):
            h = self.ext.get('type.' + fn.name)
            if h is not None:
                return h(self, st, args, kwargs, node)
            if bt('BaseException') in fn.mro():
                return [(st, Exc(fn, args, node))] if False else [(st, ExcVal(fn, args))]
            raise Unsupported(f'{fn.name}(...)')
        if isinstance(fn, Ext):
            h = self.ext.get(fn.name)
            if h is None:
                raise Unsupported(f'call of {fn.name}')
            return h(self, st, args, kwargs, node)
        if isz(fn):
            h = self.ext.get('call:' + fn.sort().name())
            if h is not None:
                return h(self, st, fn, args, kwargs, node)
        if isinstance(fn, Rec) or isinstance(fn, Ref):
            r = self.getattr(st, fn, '__call__', node)
            return self.bind(r, lambda s, f: self.call(s, f, args, kwargs, node, fr))
        raise Unsupported(f'call of {fn!r}')

    def instantiate(self, st, cls, args, kwargs, node):
        h = self.ext.get('new:' + cls.qual)
        if h is not None:
            return h(self, st, cls, args, kwargs, node)
        init, _ = cls.find('__init__')
        if bt('BaseException') in cls.mro():
            x = ExcVal(cls, args)
            if init is not None:
                r = self.alloc(st, HObj(cls, {}))
                out = []
                for s, v in self.call(st, Bound(init, r), args, kwargs, node):
                    if isinstance(v, Exc):
                        out.append((s, v))
                    else:
                        out.append((s, ExcVal(cls, args, dict(s.heap[r.a].attrs))))
                return out
            return [(st, x)]
        if init is not None:
            r = self.alloc(st, HObj(cls, {}))
            return [(s, v if isinstance(v, Exc) else r) for s, v in self.call(st, Bound(init, r), args, kwargs, node)]
        if cls.isdataclass:
            fields = cls.allfields()
            attrs = {}
            if len(args) > len(fields):
                return self.raise_(st, 'TypeError', node)
            for f, v in zip(fields, args):
                attrs[f[0]] = v
            for k, v in kwargs.items():
                if k not in [f[0] for f in fields] or k in attrs:
                    return self.raise_(st, 'TypeError', node)
                attrs[k] = v
            cur = [(st, attrs)]
            for (name, ann, default, factory, mod) in fields:
                nxt = []
                for s, at in cur:
                    if name in at:
                        nxt.append((s, at))
                    elif default is not None:
                        fr = self.new_frame(s, None, mod)
                        for s2, v in self.ev(default, s, fr):
                            nxt.append((s2, dict(at, **{name: v})))
                    elif factory is not None:
                        fr = self.new_frame(s, None, mod)
                        for s2, f in self.ev(factory, s, fr):
                            for s3, v in self.call(s2, f, [], {}, node):
                                nxt.append((s3, dict(at, **{name: v})))
                    else:
                        return self.raise_(s, 'TypeError', node)
                cur = nxt
            return [(s, self.alloc(s, HObj(cls, {f[0]: at[f[0]] for f in fields}))) for s, at in cur]
        if not args and not kwargs:
            return [(st, self.alloc(st, HObj(cls, {})))]
        raise Unsupported(f'{cls.name}(...)')

    def call_entry(self, st, fn, args, kwargs):
        """Execute the function under verification itself (its own contract applies to recursive calls only)."""
        if isinstance(fn, Bound):
            return self.call_entry(st, fn.fn, [fn.self_] + list(args), kwargs)
        return self.run_fn(st, fn, args, kwargs, None)

    def call_fn(self, st, fn, args, kwargs, node):
        con = self.contracts.get(fn.qual)
        if con is not None:
            r = con(self, st, fn, args, kwargs, node)
            if r is not None:
                return r
        if len(self.callstack) > self.MAXDEPTH or (
                fn.kind == 'property' and self.callstack.count(fn.qual) > 2 or fn.kind != 'property' and fn.qual in self.callstack[1:]) and not fn.qual.endswith('<lambda>') or (
                self.callstack and fn.qual == self.callstack[0] and len(self.callstack) > 1 and False):
            raise Unsupported(f'recursive call of {fn.qual} without a contract')
        return self.run_fn(st, fn, args, kwargs, node)

    def bind_args(self, st, fn, args, kwargs, node):
        """[(state, {param: value} | Exc)]"""
        a = fn.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        kwargs = dict(kwargs)
        if len(args) > len(params) and a.vararg is None:
            return self.raise_(st, 'TypeError', node)
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(params):])
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in kwargs:
                if p in env:
                    return self.raise_(st, 'TypeError', node)
                env[p] = kwargs.pop(p)
        if kwargs:
            if a.kwarg is not None:
                env[a.kwarg.arg] = self.alloc(st, HDict(kwargs.items()))
            else:
                return self.raise_(st, 'TypeError', node)
        cur = [(st, env)]
        nd = len(a.defaults)
        pairs = list(zip(params[len(params) - nd:], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            nxt = []
            for s, en in cur:
                if p in en:
                    nxt.append((s, en))
                else:
                    fr = self.new_frame(s, None, fn.mod)
                    for s2, v in self.ev(d, s, fr):
                        nxt.append((s2, dict(en, **{p: v})))
            cur = nxt
        out = []
        for s, en in cur:
            missing = [p for p in params + [x.arg for x in a.kwonlyargs] if p not in en]
            out += self.raise_(s, 'TypeError', node) if missing else [(s, en)]
        return out

    def run_fn(self, st, fn, args, kwargs, node):
        """Execute a function's body: [(state, value | Exc)]."""
        if isinstance(fn.node, (ast.FunctionDef,)):
            for d in fn.node.decorator_list:
                if not (isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property', 'abstractmethod')
                        or isinstance(d, ast.Attribute) and d.attr in ('setter', 'abstractmethod') or self.decorators(d)):
                    raise Unsupported(f'decorator on {fn.qual}')
        self.functions.add(fn.qual)
        out = []
        for s, env in self.bind_args(st, fn, args, kwargs, node):
            if isinstance(env, Exc):
                out.append((s, env))
                continue
            fr = self.new_frame(s, fn, fn.mod, parent=fn.fid)
            s.frames[fr.fid].update(env)
            self.callstack.append(fn.qual)
            try:
                if isinstance(fn.node, ast.Lambda):
                    out += self.ev(fn.node.body, s, fr)
                else:
                    if has_yield(fn.node):
                        raise Unsupported(f'generator function {fn.qual}')
                    for s2, o in self.block(fn.node.body, s, fr):
                        if o[0] == RET:
                            out.append((s2, o[1]))
                        elif o[0] == NEXT:
                            out.append((s2, None))
                        elif o[0] == EXC:
                            out.append((s2, o[1]))
                        else:
                            raise Unsupported('break outside a loop')
            finally:
                self.callstack.pop()
        return out

    # ---- statements ------------------------------------------------------------------------------------------------------
    def block(self, stmts, st, fr):
        """[(state, outcome)]"""
        cur, done = [st], []
        for s in stmts:
            nxt = []
            for c in cur:
                for s2, o in self.stmt(s, c, fr):
                    if o[0] == NEXT:
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            cur = nxt
            if not cur:
                break
        return done + [(c, (NEXT,)) for c in cur]

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} at line {s.lineno}')
        return m(s, st, fr)

    def lift(self, rs, f=None):
        out = []
        for s, v in rs:
            if isinstance(v, Exc):
                out.append((s, (EXC, v)))
            elif f is None:
                out.append((s, (NEXT,)))
            else:
                out += f(s, v)
        return out

    def s_Expr(self, s, st, fr):
        return self.lift(self.ev(s.value, st, fr))

    def s_Pass(self, s, st, fr):
        return [(st, (NEXT,))]

    def s_Global(self, s, st, fr):
        fr.globals_decl |= set(s.names)
        return [(st, (NEXT,))]

    def s_Assign(self, s, st, fr):
        def f(s1, v):
            cur = [(s1, None)]
            for t in s.targets:
                cur = self.bind(cur, lambda s2, _: self.assign_target(s2, fr, t, v))
            return self.lift(cur)
        return self.lift(self.ev(s.value, st, fr), f)

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, (NEXT,))]
        return self.lift(self.ev(s.value, st, fr), lambda s1, v: self.lift(self.assign_target(s1, fr, s.target, v)))

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            def f(s1, vs):
                a = vs[0]
                if isinstance(s.op, ast.Add) and self.as_list(s1, a) is not None:
                    r = self.ext['method.extend'](self, s1, [a, vs[1]], {}, s)
                    return self.lift(r)
                return self.lift(self.bind(self.binop(s1, s.op, vs[0], vs[1], s), lambda s2, v: self.assign_target(s2, fr, t, v)))
            return self.lift(self.evs([ast.copy_location(ast.Name(t.id, ast.Load()), t), s.value], st, fr), f)
        if isinstance(t, ast.Attribute):
            def f(s1, vs):
                return self.lift(self.bind(self.getattr(s1, vs[0], t.attr, s), lambda s2, a: self.bind(
                    self.binop(s2, s.op, a, vs[1], s), lambda s3, v: self.setattr(s3, vs[0], t.attr, v, s))))
            return self.lift(self.evs([t.value, s.value], st, fr), f)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            def f(s1, vs):
                return self.lift(self.bind(self.getitem(s1, vs[0], vs[1], s), lambda s2, a: self.bind(
                    self.binop(s2, s.op, a, vs[2], s), lambda s3, v: self.setitem(s3, vs[0], vs[1], v, s))))
            return self.lift(self.evs([t.value, t.slice, s.value], st, fr), f)
        raise Unsupported('augmented assignment')

    def assign_target(self, st, fr, t, v):
        """[(state, None | Exc)]"""
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                raise Unsupported('assignment to a global')
            st.frames[fr.fid][t.id] = v
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Maybe):
                v = self.unwrap(st, v)
            vd = self.deref(st, v)
            if isinstance(vd, Choice):
                out = []
                for s, x in self.resolve_choice(st, vd):
                    out += self.assign_target(s, fr, t, x)
                return out
            if vd is None:
                return self.raise_(st, 'TypeError', t)
            r = self.iterate(st, vd, t)
            want = len(t.elts)
            star = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                j, k = star[0], want - star[0] - 1          # elements before and after the starred one
                if r[0] == 'c':
                    if len(r[1]) < want - 1:
                        return self.raise_(st, 'ValueError', t)
                    mid = r[1][j:len(r[1]) - k]
                    vals = r[1][:j] + [self.alloc(st, HList(mid))] + r[1][len(r[1]) - k:]
                    cur = [(st, None)]
                    for x, y in zip(t.elts, vals):
                        x = x.value if isinstance(x, ast.Starred) else x
                        cur = self.bind(cur, lambda s, _, x=x, y=y: self.assign_target(s, fr, x, y))
                    return cur
                q = self.to_seq(st, vd)
                out = []
                for s, ok in self.split(st, r[1] >= want - 1):
                    if not ok:
                        out += self.raise_(s, 'ValueError', t)
                        continue
                    off = q.off if j == 0 else q.off + j
                    mid = self.alloc(s, HSeq(Seq(z3.simplify(r[1] - (want - 1)), q.shape, q.leaves, off, 'list')))
                    vals = [q.at(i) for i in range(j)] + [mid] + [q.at(z3.simplify(r[1] - k + i)) for i in range(k)]
                    cur = [(s, None)]
                    for x, y in zip(t.elts, vals):
                        x = x.value if isinstance(x, ast.Starred) else x
                        cur = self.bind(cur, lambda s2, _, x=x, y=y: self.assign_target(s2, fr, x, y))
                    out += cur
                return out
            if r[0] == 'c':
                if len(r[1]) != want:
                    return self.raise_(st, 'ValueError', t)
                cur = [(st, None)]
                for x, y in zip(t.elts, r[1]):
                    cur = self.bind(cur, lambda s, _, x=x, y=y: self.assign_target(s, fr, x, y))
                return cur
            out = []
            for s, ok in self.split(st, r[1] == want):
                if not ok:
                    out += self.raise_(s, 'ValueError', t)
                    continue
                cur = [(s, None)]
                for j, x in enumerate(t.elts):
                    cur = self.bind(cur, lambda s2, _, x=x, j=j: self.assign_target(s2, fr, x, r[2](s2, z3.IntVal(j))))
                out += cur
            return out
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st, fr), lambda s, o: self.setattr(s, o, t.attr, v, t))
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            return self.bind(self.evs([t.value, t.slice], st, fr), lambda s, vs: self.setitem(s, vs[0], vs[1], v, t))
        raise Unsupported('assignment target')

    def setattr(self, st, o, name, v, node):
        o = self.deref(st, o)
        if isinstance(o, Ref) and isinstance(st.heap[o.a], HObj):
            h = st.heap[o.a]
            if isinstance(h.cls, ClassVal):
                f, _ = h.cls.find(name + '$set')
                if f is not None:
                    return [(s, r if isinstance(r, Exc) else None) for s, r in self.call(st, Bound(f, o), [v], {}, node)]
            hook = self.ext.get(f'setattr:{clsname(h.cls)}')
            if hook is not None:
                r = hook(self, st, o, name, v)
                if r is not None:
                    return r
            st.heap[o.a] = HObj(h.cls, dict(h.attrs, **{name: v}))
            return [(st, None)]
        if isz(o):
            hook = self.ext.get(f'setattr:{o.sort().name()}')
            if hook is not None:
                return hook(self, st, o, name, v)
        if isinstance(o, Maybe):
            return self.setattr(st, self.unwrap(st, o), name, v, node)
        raise Unsupported(f'assignment to attribute {name} of {o!r}')

    def setitem(self, st, o, k, v, node):
        """[(state, None | Exc)]"""
        o = self.deref(st, o)
        hook = self.ext.get('setitem')
        if hook is not None:
            r = hook(self, st, o, k, v)
            if r is not None:
                return r
        k = self.unwrap(st, k)
        if isinstance(o, Ref):
            h = st.heap[o.a]
            if isinstance(h, HMap):
                self.map_write(st, o.a, h.m, self.map_key(h.m, k), v)
                return [(st, None)]
            if isinstance(h, HDict):
                if isinstance(k, (str, int, EnumMember, bytes)) or k is None:
                    items = [(a, b) for a, b in h.items]
                    for j, (a, b) in enumerate(items):
                        if a == k and type(a) == type(k):
                            items[j] = (k, v)
                            break
                    else:
                        items.append((k, v))
                    st.heap[o.a] = HDict(items)
                    return [(st, None)]
                if isz(k) and k.sort() == Str:
                    # becomes a symbolic document dict
                    st.heap[o.a] = HDoc(self.to_V(st, o))
                    return self.setitem(st, o, k, v, node)
            if isinstance(h, HList) and isinstance(k, int):
                if -len(h.items) <= k < len(h.items):
                    it = list(h.items)
                    it[k] = v
                    st.heap[o.a] = HList(it)
                    return [(st, None)]
                return self.raise_(st, 'IndexError', node)
            if isinstance(h, (HSeq, HList)):
                q = self.to_seq(st, o)
                kz = toz(k)
                out = []
                for s, ok in self.split(st, And(kz >= 0, kz < (q.n if isz(q.n) else z3.IntVal(q.n)))):
                    if not ok:
                        raise Unsupported('list assignment out of range or negative')
                    ls = self.flatten(s, v, q.shape)
                    s.heap[o.a] = HSeq(Seq(q.n, q.shape, [Store(a, kz, l) for a, l in zip(q.leaves, ls)], 0, q.kind))
                    out.append((s, None))
                return out
        if isinstance(o, DocPtr):
            t = self.doc_read(st, o)
            out = []
            for s, isd in self.split(st, V.is_dict(t)):
                if not isd:
                    out += self.raise_(s, 'TypeError', node)
                    continue
                if not (isinstance(k, str) or (isz(k) and k.sort() == Str)):
                    raise Unsupported('non-string key')
                x = self.deref(s, v)
                if isinstance(x, DocPtr):
                    x, p = self.doc_norm(s, x), self.doc_norm(s, o)
                    if x.a == p.a and segs_eq(x.segs, tuple(self.ext_seg(s, p.segs, ('k', toStr(k))))):
                        out.append((s, None))      # what is there already
                        continue
                mv = []
                w = self.to_V(s, v, mv)
                self.doc_write(s, o, toStr(k), w, stored=mv[0] if mv else None)
                out.append((s, None))
            return out
        if isz(o) and o.sort() == V:
            raise Unsupported('mutation of a value of unknown ownership')
        raise Unsupported(f'item assignment on {o!r}')

    def delitem(self, st, o, k, node):
        o = self.deref(st, o)
        hook = self.ext.get('delitem')
        if hook is not None:
            r = hook(self, st, o, k)
            if r is not None:
                return r
        k = self.unwrap(st, k)
        if isinstance(o, Ref) and isinstance(st.heap[o.a], HMap):
            m = st.heap[o.a].m
            kz = self.map_key(m, k)
            out = []
            for s, b in self.split(st, m.has[kz]):
                if b:
                    self.map_del(s, o.a, m, kz)
                    out.append((s, None))
                else:
                    out += self.raise_(s, 'KeyError', node)
            return out
        if isinstance(o, Ref) and isinstance(st.heap[o.a], HDict):
            h = st.heap[o.a]
            if isinstance(k, (str, int)):
                if not h.has(k):
                    return self.raise_(st, 'KeyError', node)
                st.heap[o.a] = HDict([(a, b) for a, b in h.items if a != k])
                return [(st, None)]
            st.heap[o.a] = HDoc(self.to_V(st, o))
            return self.delitem(st, o, k, node)
        if isinstance(o, DocPtr):
            t = self.doc_read(st, o)
            out = []
            for s, isd in self.split(st, V.is_dict(t)):
                if not isd:
                    out += self.raise_(s, 'TypeError', node)
                    continue
                for s2, has in self.split(s, V.m(t)[toStr(k)] != V.absent):
                    if not has:
                        out += self.raise_(s2, 'KeyError', node)
                        continue
                    self.doc_write(s2, o, toStr(k), V.absent)
                    out.append((s2, None))
            return out
        raise Unsupported(f'del on {o!r}')

    def s_Delete(self, s, st, fr):
        cur = [(st, None)]
        for t in s.targets:
            def one(s1, _, t=t):
                if isinstance(t, ast.Subscript):
                    return self.bind(self.evs([t.value, t.slice], s1, fr), lambda s2, vs: self.delitem(s2, vs[0], vs[1], t))
                if isinstance(t, ast.Name):
                    s1.frames[fr.fid].pop(t.id, None)
                    return [(s1, None)]
                raise Unsupported('del')
            cur = self.bind(cur, one)
        return self.lift(cur)

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [(st, (RET, None))]
        return self.lift(self.ev(s.value, st, fr), lambda s1, v: [(s1, (RET, v))])

    def s_If(self, s, st, fr):
        def f(s1, v):
            out = []
            for s2, b in self.split(s1, self.truth(s1, v)):
                out += self.block(s.body if b else s.orelse, s2, fr)
            return self.join(out) if self.joins else out
        if self.joins:
            self.fsolver.set('smt.array.extensional', False)     # (paths it does not rule out are kept)
        return self.lift(self.ev(s.test, st, fr), f)

    joins = False
    keymaps = staticmethod(lambda keys: None)      # the table whose keys these are, for comprehensions over them
    excs = {}

    def join(self, outs):
        """Outcomes of an if statement, with states that differ in plain values only made into one."""
        acc = []
        for s, o in outs:
            if o[0] == NEXT:
                for j, (s0, o0) in enumerate(acc):
                    m = self.join2(s0, s) if o0[0] == NEXT else None
                    if m is not None:
                        acc[j] = (m, o)
                        break
                else:
                    acc.append((s, o))
            else:
                acc.append((s, o))
        return acc

    def join2(self, a, b):
        same = lambda x, y: x is y or isz(x) and isz(y) and x.eq(y)
        n = 0
        while n < min(len(a.pc), len(b.pc)) and same(a.pc[n], b.pc[n]):
            n += 1
        for k in set(a.heap) & set(b.heap):
            x, y = a.heap[k], b.heap[k]
            if not (x is y or isinstance(x, HDoc) and isinstance(y, HDoc) and x.root.eq(y.root)):
                return None
        if any(a.muts.get(k, ()) != b.muts.get(k, ()) for k in set(a.muts) | set(b.muts)):
            return None
        if set(a.ghost) != set(b.ghost) or not all(same(a.ghost[k], b.ghost[k]) for k in a.ghost) or set(a.frames) != set(b.frames):
            return None
        sel = fresh('branch', BoolS)
        s = a.fork()
        for fid in a.frames:
            for nm in set(a.frames[fid]) | set(b.frames[fid]):
                x, y = a.frames[fid].get(nm, self), b.frames[fid].get(nm, self)
                if x is y or x is not self and y is not self and same_const(x, y):
                    continue
                if x is self or y is self or isinstance(x, Poison) or isinstance(y, Poison):
                    s.frames[fid][nm] = Poison(nm)
                    continue
                if isz(x) and isz(y) and x.sort() == y.sort():
                    s.frames[fid][nm] = If(sel, x, y)
                    continue
                plain = lambda v: v is None or isinstance(v, (bool, int, float, str)) or isz(v) and v.sort() in (V, Str, IntS, RealS, BoolS)
                if not (plain(x) and plain(y)):
                    return None
                s.frames[fid][nm] = If(sel, self.to_V(a, x), self.to_V(b, y))
        s.heap = {**b.heap, **a.heap}
        s.muts = {**b.muts, **a.muts}
        s.pc = a.pc[:n]
        if a.pc[n:]:
            s.assume(Implies(sel, And(a.pc[n:])))
        if b.pc[n:]:
            s.assume(Implies(Not(sel), And(b.pc[n:])))
        return s

    def s_Assert(self, s, st, fr):
        def f(s1, v):
            out = []
            for s2, b in self.split(s1, self.truth(s1, v)):
                out.append((s2, (NEXT,)) if b else (s2, (EXC, Exc(bt('AssertionError'), (), s))))
            return out
        return self.lift(self.ev(s.test, st, fr), f)

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.frames[fr.fid].get('$exc')
            if cur is None:
                return [(st, (EXC, Exc(bt('RuntimeError'), (), s)))]
            return [(st, (EXC, cur))]

        def f(s1, v):
            if isinstance(v, ExcVal):
                return [(s1, (EXC, Exc(v.cls, v.args, s, v.attrs)))]
            if isinstance(v, Exc):
                return [(s1, (EXC, v))]
            if isinstance(v, (ClassVal, BType)):
                return self.lift(self.call(s1, v, [], {}, s), lambda s2, w: [(s2, (EXC, Exc(w.cls, w.args, s, w.attrs)))])
            raise Unsupported(f'raise {v!r}')
        return self.lift(self.ev(s.exc, st, fr), f)

    def exc_matches(self, st, cls, h):
        if isinstance(h, Tup):
            return any(self.exc_matches(st, cls, x) for x in h.items)
        m = cls.mro() if isinstance(cls, (BType, ClassVal)) else [cls]
        return h in m

    def s_Try(self, s, st, fr):
        outs = []
        for s1, o in self.block(s.body, st, fr):
            if o[0] == NEXT and s.orelse:
                outs += self.block(s.orelse, s1, fr)
            elif o[0] == EXC:
                outs += self.handle(s.handlers, s1, o[1], fr)
            else:
                outs.append((s1, o))
        if s.finalbody:
            res = []
            for s1, o in outs:
                for s2, o2 in self.block(s.finalbody, s1, fr):
                    res.append((s2, o if o2[0] == NEXT else o2))
            outs = res
        return outs

    def handle(self, handlers, st, x, fr):
        for h in handlers:
            if h.type is None:
                match = True
            else:
                rs = self.ev(h.type, st, fr)
                if len(rs) != 1:
                    raise Unsupported('except clause')
                match = self.exc_matches(st, x.cls, rs[0][1])
            if match:
                env = st.frames[fr.fid]
                if h.name:
                    env[h.name] = ExcVal(x.cls, x.args, x.attrs)
                saved = env.get('$exc')
                env['$exc'] = x
                out = []
                for s2, o in self.block(h.body, st, fr):
                    e2 = s2.frames[fr.fid]
                    if h.name:
                        e2.pop(h.name, None)
                    if saved is None:
                        e2.pop('$exc', None)
                    else:
                        e2['$exc'] = saved
                    out.append((s2, o))
                return out
        return [(st, (EXC, x))]

    def s_With(self, s, st, fr):
        def go(items, s1):
            if not items:
                return self.block(s.body, s1, fr)
            it = items[0]

            def f(s2, cm):
                def entered(s3, v):
                    def body(s4):
                        out = []
                        for s5, o in go(items[1:], s4):
                            for s6, r in self.cm_exit(s5, cm, o, s):
                                out.append((s6, (EXC, r) if isinstance(r, Exc) else o))
                        return out
                    if it.optional_vars is None:
                        return body(s3)
                    return self.lift(self.assign_target(s3, fr, it.optional_vars, v), lambda s4, _: body(s4))
                return self.lift(self.cm_enter(s2, cm, s), entered)
            return self.lift(self.ev(it.context_expr, s1, fr), f)
        return go(s.items, st)

    def cm_enter(self, st, cm, node):
        h = self.ext.get('cm_enter')
        r = h(self, st, cm, node) if h is not None else None
        if r is not None:
            return r
        return self.bind(self.getattr(st, cm, '__enter__', node), lambda s, f: self.call(s, f, [], {}, node))

    def cm_exit(self, st, cm, outcome, node):
        h = self.ext.get('cm_exit')
        r = h(self, st, cm, outcome, node) if h is not None else None
        if r is not None:
            return r
        if outcome[0] == EXC:
            x = outcome[1]
            a = [x.cls, ExcVal(x.cls, x.args, x.attrs), None]
        else:
            a = [None, None, None]

        def done(s, v):
            if outcome[0] == EXC and v is not None and v is not False:
                raise Unsupported('a context manager that suppresses exceptions')
            return [(s, None)]
        return self.bind(self.bind(self.getattr(st, cm, '__exit__', node), lambda s, f: self.call(s, f, a, {}, node)), done)

    def s_FunctionDef(self, s, st, fr):
        st.frames[fr.fid][s.name] = FnVal(s, fr.mod, f'{fr.fn.qual}.{s.name}', fid=fr.fid)
        return [(st, (NEXT,))]

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            h = self.ext.get('import:' + a.name)
            if h is not None:
                r = h(self, st)
                if isinstance(r, Exc):
                    return [(st, (EXC, r))]
            st.frames[fr.fid][nm] = ModVal(tgt) if self.repo.is_pkg(tgt) else Ext(tgt)
        return [(st, (NEXT,))]

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            if s.level:
                raise Unsupported('relative import in a function')
            if self.repo.is_pkg(s.module):
                v = self.repo.lookup(self.repo.modules[s.module], a.name)
                v = self.const_value(v, st) if isinstance(v, tuple) else v
            else:
                v = self.repo.ext_name(f'{s.module}.{a.name}')
            st.frames[fr.fid][a.asname or a.name] = v
        return [(st, (NEXT,))]

    def s_Break(self, s, st, fr):
        return [(st, (BRK,))]

    def s_Continue(self, s, st, fr):
        return [(st, (CONT,))]

    def s_For(self, s, st, fr):
        def f(s1, it):
            r = self.iterate(s1, it, s)
            if r[0] == 'c':
                return self.for_conc(s, s1, fr, r[1])
            from .loops import for_sym
            return for_sym(self, s, s1, fr, r[1], r[2])
        return self.lift(self.ev(s.iter, st, fr), f)

    def for_conc(self, s, st, fr, items):
        cur, done = [st], []
        for x in items:
            nxt = []
            for c in cur:
                for s1, r in self.assign_target(c, fr, s.target, x):
                    if isinstance(r, Exc):
                        done.append((s1, (EXC, r)))
                        continue
                    for s2, o in self.block(s.body, s1, fr):
                        if o[0] in (NEXT, CONT):
                            nxt.append(s2)
                        elif o[0] == BRK:
                            done.append((s2, (NEXT,)))
                        else:
                            done.append((s2, o))
            cur = nxt
        for c in cur:
            done += self.block(s.orelse, c, fr) if s.orelse else [(c, (NEXT,))]
        return done

    def s_While(self, s, st, fr):
        from .loops import while_sym
        return while_sym(self, s, st, fr)

    # ---- shapes -----------------------------------------------------------------------------------------------------
    def shape_of(self, st, v):
        v = self.deref(st, v)
        if isz(v):
            return SLeaf(v.sort())
        if isinstance(v, bool):
            return SLeaf(BoolS)
        if isinstance(v, int):
            return SLeaf(IntS)
        if isinstance(v, float):
            return SLeaf(RealS)
        if isinstance(v, str):
            return SLeaf(Str)
        if isinstance(v, Maybe):
            if self.proves(st, Not(v.isnone)):
                return self.shape_of(st, v.val)
            if self.proves(st, v.isnone):
                return SConst(None)
            return SMaybe(self.shape_of(st, v.val))
        if isinstance(v, Choice):
            return SChoice(v.options)
        if isinstance(v, Tup):
            return STup([self.shape_of(st, x) for x in v.items])
        if isinstance(v, Rec):
            return SRec(v.cls, {k: self.shape_of(st, x) for k, x in v.attrs.items()})
        if isinstance(v, DocPtr):
            return SLeaf(V)
        if isinstance(v, Ref):
            h = st.heap[v.a]
            if isinstance(h, HObj):
                return SRec(h.cls, {k: self.shape_of(st, x) for k, x in h.attrs.items()})
            if isinstance(h, HSeq):
                return SSeq(h.seq.shape)
            if isinstance(h, HList):
                q = self.items_seq(st, h.items, 'list')
                return SSeq(q.shape) if q.shape is not None else SConst(v)
            if isinstance(h, HDict):
                return SLeaf(V)
            if isinstance(h, HMap):
                return SMap(h.m.ks, h.m.shape)
        if isinstance(v, MapVal):
            return SMap(v.ks, v.shape)
        if isinstance(v, Seq):
            return SSeq(v.shape, v.kind)
        if isinstance(v, ExcVal):       # (its arguments and fields are forgotten)
            keep = {k: x if isinstance(x, (str, bool, Shape)) else self.shape_of(st, x) for k, x in v.attrs.items()}
            return SConst(self.excs.setdefault((v.cls, str(keep)), ExcVal(v.cls, (), keep)))
        return SConst(v)

    def join_shape(self, a, b):
        if shape_eq(a, b):
            return a
        none_a = isinstance(a, SConst) and a.v is None
        none_b = isinstance(b, SConst) and b.v is None
        if none_a:
            return b if isinstance(b, SMaybe) else SMaybe(b)
        if none_b:
            return a if isinstance(a, SMaybe) else SMaybe(a)
        if isinstance(a, SMaybe) or isinstance(b, SMaybe):
            ia = a.inner if isinstance(a, SMaybe) else a
            ib = b.inner if isinstance(b, SMaybe) else b
            return SMaybe(self.join_shape(ia, ib))
        if isinstance(a, SLeaf) and isinstance(b, SLeaf):
            if {a.sort, b.sort} <= {IntS, RealS}:
                return SLeaf(RealS)
            if a.sort == V or b.sort == V or {a.sort.name(), b.sort.name()} <= {'Int', 'Real', 'Bool', 'Str', 'Ty'}:
                return SLeaf(V)
        if isinstance(a, SRec) and isinstance(b, SRec) and a.cls is b.cls and list(a.fields) == list(b.fields):
            return SRec(a.cls, {k: self.join_shape(a.fields[k], b.fields[k]) for k in a.fields})
        if isinstance(a, STup) and isinstance(b, STup) and len(a.items) == len(b.items):
            return STup([self.join_shape(x, y) for x, y in zip(a.items, b.items)])
        oa = a.options if isinstance(a, SChoice) else [a.v] if isinstance(a, SConst) else None
        ob = b.options if isinstance(b, SChoice) else [b.v] if isinstance(b, SConst) else None
        if oa is not None and ob is not None:
            opts = list(oa)
            for o in ob:
                if not any(same_const(o, p) for p in opts):
                    opts.append(o)
            return SChoice(opts)
        raise Unsupported(f'values of different kinds meet: {a!r}, {b!r}')

    def flatten(self, st, v, shape):
        v = self.deref(st, v)
        if isinstance(v, Maybe) and not isinstance(shape, SMaybe) and not (isinstance(shape, SLeaf) and shape.sort == V):
            v = None if isinstance(shape, SConst) and shape.v is None else v.val    # shape_of decided which
        if isinstance(shape, SConst):
            if isinstance(v, ExcVal):
                v = self.shape_of(st, v).v
            if not same_const(v, shape.v):
                raise Unsupported(f'constant {shape.v!r} became {v!r}')
            return []
        if isinstance(shape, SLeaf):
            if shape.sort == V:
                return [self.to_V(st, v)]
            if shape.sort == RealS:
                z = toz(v)
                return [z3.ToReal(z) if z.sort() == IntS else z]
            if shape.sort == IntS:
                return [toz(v)]
            if shape.sort == BoolS:
                return [tobool(v)]
            if shape.sort == Str:
                return [toStr(v)]
            return [v]
        if isinstance(shape, SMaybe):
            if v is None:
                return [z3.BoolVal(True)] + [default_of(s) for s in shape.inner.sorts()]
            if isinstance(v, Maybe):
                return [v.isnone] + self.flatten(st, v.val, shape.inner)
            return [z3.BoolVal(False)] + self.flatten(st, v, shape.inner)
        if isinstance(shape, SChoice):
            if isinstance(v, Choice):
                t = z3.IntVal(0)
                for i, o in enumerate(v.options):
                    for j, p in enumerate(shape.options):
                        if same_const(o, p):
                            t = If(v.tag == i, z3.IntVal(j), t)
                return [t]
            for j, p in enumerate(shape.options):
                if same_const(v, p):
                    return [z3.IntVal(j)]
            raise Unsupported('choice')
        if isinstance(shape, STup):
            if not isinstance(v, Tup):
                raise Unsupported('tuple expected')
            return [l for x, s in zip(v.items, shape.items) for l in self.flatten(st, x, s)]
        if isinstance(shape, SRec):
            at = v.attrs if isinstance(v, Rec) else st.heap[v.a].attrs
            return [l for k, s in shape.fields.items() for l in self.flatten(st, at[k], s)]
        if isinstance(shape, SSeq):
            q = self.to_seq(st, v)
            if q.shape is None:
                return [z3.IntVal(0)] + [z3.K(IntS, default_of(s)) for s in shape.elem.sorts()]
            ls = q.leaves
            if not shape_eq(q.shape, shape.elem):
                ls = self.reshape(q, shape.elem)
            elif not (isinstance(q.off, int) and q.off == 0):
                i = fresh('i', IntS)
                ls = [z3.Lambda([i], Select(a, i + q.off)) for a in ls]
            return [q.n if isz(q.n) else z3.IntVal(q.n)] + list(ls)
        if isinstance(shape, SMap):
            m = self.as_map(st, v)
            if m is None or not shape_eq(m.shape, shape.elem):
                raise Unsupported('flatten')
            return [m.has, m.n if isz(m.n) else z3.IntVal(m.n), m.keys] + m.leaves
        raise Unsupported('flatten')

    def flatten_val(self, v, shape):
        return self.flatten(St(), v, shape)


class ExcVal:
    """An exception object as a value."""

    def __init__(self, cls, args=(), attrs=None):
        self.cls, self.args, self.attrs = cls, args, attrs or {}


class SuperVal:
    def __init__(self, fr, args):
        self.fr, self.args = fr, args


class IterSpec:
    """Result of enumerate/zip/range/items: length and element function."""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem


def default_of(s):
    if s == IntS:
        return z3.IntVal(0)
    if s == RealS:
        return z3.RealVal(0)
    if s == BoolS:
        return z3.BoolVal(False)
    if s == V:
        return V.absent
    if s.kind() == z3.Z3_ARRAY_SORT:
        return z3.K(s.domain(), default_of(s.range()))
    return z3.Const(f'default:{s}', s)


_ln = {}


def local_names(node):
    k = id(node)
    if k in _ln:
        return _ln[k][1]
    out = set()
    body = node.body if isinstance(node.body, list) else [node.body]

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    out.add(a.asname or a.name.split('.')[0])
            walk(c)
    for b in body:
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            out.add(b.name)
        else:
            walk(ast.Module([b], []) if isinstance(b, ast.stmt) else ast.Expression(b))
    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
        out.discard(a.arg)
    _ln[k] = (node, out)
    return out


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


BASE_EXT = {}
from . import builtins as _b  # noqa: E402  (fills BASE_EXT)

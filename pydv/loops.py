"""Loops over symbolic sequences, cut by invariants.

The loop's modified variables and heap cells are found by executing the body from an arbitrary
iteration. Candidate invariants (from contracts, and generic templates) are kept only if they are
proved to hold on entry and to be preserved by the body (Houdini), then assumed for an arbitrary
iteration and on exit. Nothing is unrolled.
"""
import ast
import z3
from . import univ as u
from .univ import V, Str, fresh, lit
from .vals import *
from . import ex as X
from .ex import isz, toz, tobool, NEXT, RET, EXC, BRK, CONT, Poison, IterSpec, default_of, Fwd

And, Or, Not, Implies, If, Select, Store = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select, z3.Store
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
UNB = object()


def for_sym(ex, node, st, fr, n, elem):
    return Loop(ex, node, st, fr, z3.IntVal(n) if isinstance(n, int) else n, elem).run()


def while_sym(ex, node, st, fr):
    return Loop(ex, node, st, fr, None, None).run()


def assigned(body):
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if c.name not in out:
                    out.append(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)) and c.id not in out:
                out.append(c.id)
            walk(c)
    walk(ast.Module(body, []))
    return out


class Walker:
    """A document pointer that follows a path: entry pointer + the first i segments of P."""

    def __init__(self, ptr, P, off):
        self.ptr, self.P, self.off = ptr, P, off

    def same(self, o):
        return isinstance(o, Walker) and self.ptr.a == o.ptr.a and segs_eq(self.ptr.segs, o.ptr.segs) and self.P.eq(o.P)


class View:
    """State of the loop at some iteration: i, n, variables, cells; `entry` is the view at i = 0."""

    def __init__(self, loop, st, i, env, entry=None):
        self.loop, self.st, self.i, self.env = loop, st, i, env
        self.n, self.ex, self.elem = loop.n, loop.ex, loop.elem
        self.entry = entry or self

    def v(self, name):
        x = self.env.get(name, UNB)
        return UNB if isinstance(x, Poison) else x

    def get(self, x):
        """A variable's value, with mutable lists read as sequences and documents as values."""
        if isinstance(x, str):
            x = self.v(x)
        if x is UNB:
            return UNB
        if isinstance(x, Ref):
            h = self.st.heap[x.a]
            if isinstance(h, (HSeq, HList)):
                return self.ex.to_seq(self.st, x)
        if isinstance(x, DocPtr) or isinstance(x, Ref) and isinstance(self.st.heap[x.a], (HDoc, Fwd)):
            return self.ex.to_V(self.st, x)
        return x

    def cell(self, a):
        h = self.st.heap[a]
        if isinstance(h, (HSeq, HList)):
            return self.ex.to_seq(self.st, Ref(a))
        if isinstance(h, HDoc):
            return h.root
        return h

    def root(self, a):
        return self.st.heap[a].root


class Loop:
    def __init__(self, ex, node, st, fr, n, elem):
        self.ex, self.node, self.st0, self.fr, self.n, self.elem = ex, node, st, fr, n, elem
        self.isfor = elem is not None
        self.names = assigned(node.body + ([ast.Assign([node.target], ast.Constant(0))] if self.isfor else []))
        self.env0 = dict(st.frames[fr.fid])
        self.vars = {}
        self.cells = {}
        self.ghosts = {}
        self.qual = fr.fn.qual if fr.fn else ''

    # ---- shapes of the modified state ---------------------------------------------------------------
    def shape0(self, v):
        if isinstance(v, (Ref, DocPtr)):
            return SConst(v)
        return self.ex.shape_of(self.st0, v)

    def step_shape(self, name, st, v, i):
        """Shape of a variable after one iteration, given the current description."""
        ex = self.ex
        cur = self.vars[name]
        e = self.env0.get(name, UNB)
        if isinstance(v, Poison):
            return cur if cur is not None else UNB
        if isinstance(v, (Ref, DocPtr)) and e is not UNB and same_const(v, e) and isinstance(cur, SConst):
            return cur
        if isinstance(v, DocPtr) or isinstance(v, Ref) and isinstance(st.heap[v.a], (HDoc, Fwd)):
            if isinstance(cur, SLeaf) and cur.sort == V:
                return cur
            v = ex.deref(st, v)
        if isinstance(v, DocPtr) and isinstance(e, DocPtr) or isinstance(v, DocPtr) and isinstance(e, Ref):
            e0 = ex.deref(self.st0, e)
            p = ex.doc_norm(st, v)
            base = ex.doc_norm(self.st0, e0)
            if p.a == base.a and len(p.segs) == len(base.segs) + 1 and segs_eq(p.segs[:-1], base.segs):
                s = p.segs[-1]
                if s[0] == 'k' and z3.is_select(s[1]) and z3.simplify(s[1].arg(1)).eq(z3.simplify(i)):
                    return Walker(base, s[1].arg(0), 0)
                if s[0] == 'p' and ex.proves(st, s[2] == i + 1):
                    return Walker(base, s[1], 0)
                if s[0] == 'p' and z3.is_int_value(z3.simplify(s[2])) and z3.simplify(s[2]).as_long() == 1:
                    return Walker(base, s[1], 0)
            import os
            raise Unsupported(f'document pointer {name} moves irregularly in a loop')
        if isinstance(cur, Walker):
            raise Unsupported(f'document pointer {name} moves irregularly in a loop')
        if isinstance(v, Ref):
            h = st.heap[v.a]
            if isinstance(h, (HSeq, HList)):
                q = ex.to_seq(st, v)
                new = SSeq(q.shape)
            else:
                new = ex.shape_of(st, v)
        else:
            new = ex.shape_of(st, v)
        if cur is UNB or cur is None:
            return new
        if isinstance(cur, SConst) and isinstance(cur.v, Ref):
            h = self.st0.heap[cur.v.a]
            if isinstance(h, (HDoc, Fwd)):
                cur = SLeaf(V)
            else:
                cur = SSeq(ex.to_seq(self.st0, cur.v).shape) if isinstance(h, (HSeq, HList)) else ex.shape_of(self.st0, cur.v)
        elif isinstance(cur, SConst) and isinstance(cur.v, DocPtr):
            cur = SLeaf(V)
        return self.join(cur, new)

    def join(self, a, b):
        if isinstance(a, SSeq) and isinstance(b, SSeq):
            if a.elem is None:
                return b
            if b.elem is None:
                return a
            return SSeq(self.ex.join_shape(a.elem, b.elem), a.kind)
        return self.ex.join_shape(a, b)

    def cell_shape(self, st, a):
        h = st.heap[a]
        ex = self.ex
        if isinstance(h, (HSeq, HList)):
            return ('seq', SSeq(ex.to_seq(st, Ref(a)).shape))
        if isinstance(h, HDoc):
            return ('doc', SLeaf(V))
        if isinstance(h, HObj):
            return ('obj', h.cls, {k: (SConst(v) if isinstance(v, (Ref, DocPtr)) else ex.shape_of(st, v)) for k, v in h.attrs.items()})
        if isinstance(h, HDict):
            return ('dict', {k: (SConst(v) if isinstance(v, (Ref, DocPtr)) else ex.shape_of(st, v)) for k, v in h.items})
        if isinstance(h, HMap):
            return ('map', SMap(h.m.ks, h.m.shape))
        if isinstance(h, HSSet):
            return ('sset', SLeaf(h.arr.sort()))
        if isinstance(h, HSet):
            if all(isinstance(x, str) or isz(x) and x.sort() == Str for x in h.items):
                return ('sset', SLeaf(z3.ArraySort(Str, BoolS)))
            return ('sset', SLeaf(z3.ArraySort(IntS, BoolS)))
        raise Unsupported('loop modifies an object of unknown kind')

    def join_cell(self, a, b):
        if a[0] != b[0]:
            raise Unsupported('object changes kind in a loop')
        if a[0] == 'seq':
            return ('seq', self.join(a[1], b[1]))
        if a[0] == 'obj':
            if set(a[2]) != set(b[2]):
                raise Unsupported('attributes appear in a loop')
            return ('obj', a[1], {k: self.ex.join_shape(a[2][k], b[2][k]) for k in a[2]})
        if a[0] == 'dict':
            if list(a[1]) != list(b[1]):
                raise Unsupported('keys appear in a dict in a loop')
            return ('dict', {k: self.ex.join_shape(a[1][k], b[1][k]) for k in a[1]})
        return a

    def cell_eq(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == 'seq':
            return self.sh_eq(a[1], b[1])
        if a[0] == 'obj':
            return all(shape_eq(a[2][k], b[2][k]) for k in a[2])
        if a[0] == 'dict':
            return all(shape_eq(a[1][k], b[1][k]) for k in a[1])
        return True

    def sh_eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Walker) or isinstance(b, Walker):
            return isinstance(a, Walker) and a.same(b)
        if a is UNB or b is UNB or a is None or b is None:
            return False
        if isinstance(a, SSeq) and isinstance(b, SSeq):
            if a.elem is None or b.elem is None:
                return a.elem is b.elem
        return shape_eq(a, b)

    # ---- arbitrary iteration ---------------------------------------------------------------------------
    def mkval(self, s, shape, label, i, leafs):
        if isinstance(shape, Walker):
            segs = list(shape.ptr.segs)
            p = DocPtr(shape.ptr.a, tuple(segs) + (('p', shape.P, i),))
            p.ver = len(s.muts.get(p.a, ()))
            return p
        if isinstance(shape, SConst):
            return shape.v
        if isinstance(shape, SSeq):
            if shape.elem is None:
                return self.ex.alloc(s, HList(()))
            ls = [fresh(label, x) for x in shape.sorts()]
            leafs += ls
            s.assume(ls[0] >= 0)
            return self.ex.alloc(s, HSeq(shape.build(ls)))
        ls = [fresh(label, x) for x in shape.sorts()]
        leafs += ls
        v = shape.build(ls)
        self.range_facts(s, v)
        return v

    def range_facts(self, s, v):
        if isinstance(v, Choice):
            s.assume(And(v.tag >= 0, v.tag < len(v.options)))
        elif isinstance(v, Maybe):
            self.range_facts(s, v.val)
        elif isinstance(v, Tup):
            for x in v.items:
                self.range_facts(s, x)
        elif isinstance(v, Rec):
            for x in v.attrs.values():
                self.range_facts(s, x)
        elif isinstance(v, Seq):
            s.assume(v.n >= 0)

    def havoc(self):
        ex = self.ex
        s = self.st0.fork()
        i = fresh('it', IntS)
        s.assume(i >= 0)
        leafs = []
        for a, c in self.cells.items():
            if c[0] == 'seq':
                if c[1].elem is None:
                    continue
                ls = [fresh('cell', x) for x in c[1].sorts()]
                leafs += ls
                s.assume(ls[0] >= 0)
                s.heap[a] = HSeq(c[1].build(ls))
            elif c[0] == 'doc':
                r = fresh('root', V)
                leafs.append(r)
                s.heap[a] = HDoc(r)
                s.muts[a] = s.muts.get(a, ()) + (('*', None),)
            elif c[0] == 'obj':
                s.heap[a] = HObj(c[1], {k: self.mkval(s, sh, 'attr', i, leafs) for k, sh in c[2].items()})
            elif c[0] == 'dict':
                s.heap[a] = HDict([(k, self.mkval(s, sh, 'item', i, leafs)) for k, sh in c[1].items()])
            elif c[0] == 'map':
                ls = [fresh('map', x) for x in c[1].sorts()]
                leafs += ls
                mv = c[1].build(ls)
                s.heap[a] = HMap(mv)
                for f in mv.facts():
                    s.assume(f)
            elif c[0] == 'sset':
                r = fresh('set', c[1].sort)
                leafs.append(r)
                s.heap[a] = HSSet(r)
        for g, srt in self.ghosts.items():
            s.ghost[g] = fresh('ghost', srt)
            leafs.append(s.ghost[g])
        env = s.frames[self.fr.fid]
        self.unb_vals = {}
        for nm, sh in self.vars.items():
            if sh is UNB:
                env.pop(nm, None)
                continue
            v = self.mkval(s, sh, nm, i, leafs)
            if self.env0.get(nm, UNB) is UNB or isinstance(self.env0.get(nm), Poison):
                self.unb_vals[nm] = v
                env[nm] = Poison(nm)
            else:
                env[nm] = v
        return s, i, leafs

    def body(self, s, i):
        """Outcomes of one iteration from state s: (state, outcome)."""
        ex, fr, node = self.ex, self.fr, self.node
        out = []
        if self.isfor:
            for s1, r in ex.assign_target(s, fr, node.target, self.elem(s, i)):
                if isinstance(r, X.Exc):
                    out.append((s1, (EXC, r)))
                else:
                    out += ex.block(node.body, s1, fr)
            return out, []
        exits = []
        for s1, c in ex.ev(node.test, s, fr):
            if isinstance(c, X.Exc):
                out.append((s1, (EXC, c)))
                continue
            for s2, b in ex.split(s1, ex.truth(s1, c)):
                if b:
                    out += ex.block(node.body, s2, fr)
                else:
                    exits.append(s2)
        return out, exits

    def discover(self):
        ex = self.ex
        for nm in self.names:
            e = self.env0.get(nm, UNB)
            self.vars[nm] = UNB if e is UNB or isinstance(e, Poison) else self.shape0(e)
        for _ in range(10):
            s, i, _l = self.havoc()
            if self.isfor:
                s.assume(i < self.n)
            heap0, ghost0, known = dict(s.heap), dict(s.ghost), set(self.st0.heap)
            outs, _ = self.body(s, i)
            nv, nc, ng = dict(self.vars), dict(self.cells), dict(self.ghosts)
            for s2, o in outs:
                if o[0] not in (NEXT, CONT):
                    continue
                env = s2.frames[self.fr.fid]
                for nm in self.names:
                    v = env.get(nm, UNB)
                    if v is UNB:
                        continue
                    old = self.vars
                    self.vars = nv
                    try:
                        nv[nm] = self.step_shape(nm, s2, v, i)
                    finally:
                        self.vars = old
                for a in known:
                    h0, h2 = heap0.get(a), s2.heap.get(a)
                    if h0 is h2 or isinstance(h0, HDoc) and isinstance(h2, HDoc) and h0.root.eq(h2.root):
                        continue
                    if isinstance(h2, Fwd):
                        raise Unsupported('an object is moved into a document in a loop')
                    sh = self.cell_shape(s2, a)
                    base = nc.get(a) or self.cell_shape(self.st0, a)
                    if base[0] == 'dict' and sh[0] == 'doc':
                        self.st0.heap[a] = HDoc(ex.to_V(self.st0, Ref(a)))
                        base = sh
                    nc[a] = self.join_cell(base, sh)
                for g, x in s2.ghost.items():
                    y = ghost0.get(g)
                    if isz(x) and (y is None or not (isz(y) and x.eq(y))) and not isinstance(g, tuple):
                        ng[g] = x.sort()
            stable = all(self.sh_eq(nv[k], self.vars[k]) for k in nv) and set(nc) == set(self.cells) and all(
                self.cell_eq(nc[k], self.cells[k]) for k in nc) and ng == self.ghosts
            import os
            self.vars, self.cells, self.ghosts = nv, nc, ng
            if stable:
                return
        raise Unsupported('loop state does not stabilise')

    # ---- invariants ------------------------------------------------------------------------------------
    def view(self, st, i, entry=None, havoc=False):
        env = dict(st.frames[self.fr.fid])
        if havoc:
            env.update(self.unb_vals)
        return View(self, st, i, env, entry)

    def candidates(self, view0):
        out = []
        con = self.ex.loops.get(self.qual)
        if con is None:
            con = self.ex.loops.get('*')
        out += generic(self)
        if con is not None:
            out += list(con(self))
        return out

    def inst(self, f, view):
        try:
            r = f(view)
        except (Unsupported, AttributeError, KeyError, z3.Z3Exception, TypeError, IndexError) as e:
            return None
        return None if r is None else tobool(r)

    def prove(self, st, g):
        g = z3.simplify(g) if False else g
        return self.ex.solve_inv(st.pc, g)

    def run(self):
        ex = self.ex
        if self.node.orelse:
            raise Unsupported('loop with else')
        ex.quiet += 1
        try:
            self.discover()
            view0 = self.view(self.st0, z3.IntVal(0))
            cands = []
            for nm, f in self.candidates(view0):
                g = self.inst(f, view0)
                if g is None:
                    continue
                if self.prove(self.st0, g):
                    cands.append((nm, f))
            summarised = False
            while True:
                s, i, leafs = self.havoc()
                vw = self.view(s, i, view0, havoc=True)
                kept = []
                for nm, f in cands:
                    g = self.inst(f, vw)
                    if g is not None:
                        for c in (g.children() if z3.is_and(g) else [g]):
                            s.assume(c)
                        kept.append((nm, f))
                cands = kept
                base_state = s.fork()
                if self.isfor:
                    s.assume(i < self.n)
                mark, base = u._fresh[0], len(s.pc)
                outs, exits = self.body(s, i)
                norm = [(s2, o) for s2, o in outs if o[0] in (NEXT, CONT)]
                bad = set()
                for s2, o in norm:
                    self.check_alias(s2)
                    v2 = self.view(s2, z3.simplify(i + 1), view0)
                    for k, (nm, f) in enumerate(cands):
                        if k in bad:
                            continue
                        g = self.inst(f, v2)
                        if g is None or not self.prove(s2, g):
                            bad.add(k)
                            if ex.trace:
                                print(f'  loop {self.qual}:{self.node.lineno}: dropped {nm}', 'untranslatable' if g is None else '')
                if bad:
                    cands = [c for k, c in enumerate(cands) if k not in bad]
                    continue
                if not summarised:
                    summarised = True
                    extra = self.summary(norm, i, base, mark, leafs, view0)
                    if extra:
                        cands += extra
                        continue
                break
        finally:
            ex.quiet -= 1
        ex.inv_log.append((self.qual, self.node.lineno, [nm for nm, _ in cands]))
        if ex.trace:
            print(f'loop {self.qual}:{self.node.lineno}: kept', [nm for nm, _ in cands])
        # final run, with obligations
        s, i, leafs = self.havoc()
        vw = self.view(s, i, view0, havoc=True)
        for nm, f in cands:
            g = self.inst(f, vw)
            if g is not None:
                for c in (g.children() if z3.is_and(g) else [g]):
                    s.assume(c)
        unb = dict(self.unb_vals)
        ex_state = s.fork()
        if self.isfor:
            s.assume(i < self.n)
        outs, exits = self.body(s, i)
        res = []
        for s2, o in outs:
            if o[0] == BRK:
                res.append((s2, (NEXT,)))
            elif o[0] in (RET, EXC):
                res.append((s2, o))
        if self.isfor:
            ex_state.assume(i == self.n)
            exits = [ex_state]
        for e in exits:
            live = [nm for nm in unb]
            if not live:
                res.append((e, (NEXT,)))
                continue
            for e2, b in ex.split(e, i > 0):
                env = e2.frames[self.fr.fid]
                for nm in live:
                    if b:
                        env[nm] = unb[nm]
                    else:
                        env.pop(nm, None)
                res.append((e2, (NEXT,)))
        return res

    def check_alias(self, s2):
        """Two tracked variables must not share a mutable list built in the body: drop all but the first."""
        seen = {}
        env = s2.frames[self.fr.fid]
        for nm in sorted(self.names, key=lambda k: k not in self.env0):
            v = env.get(nm)
            if isinstance(v, Ref) and not (isinstance(self.vars[nm], SConst)) and isinstance(s2.heap[v.a], (HList, HSeq)):
                if v.a in seen and nm in self.vars:
                    if self.vars[nm] is not UNB and nm in self.env0:
                        raise Unsupported('two variables share a list across iterations')
                seen.setdefault(v.a, nm)

    # ---- what every completed iteration established ----------------------------------------------------------
    def summary(self, norm, i, base, mark, leafs, view0):
        """Candidates of the form: for all j < i, iteration j ran one of the paths found (over its element)."""
        if not norm or not self.isfor:
            return []
        hv = {l.decl().name() for l in leafs}
        alts = []
        useful = False
        for s2, o in norm:
            kept = [p for p in s2.pc[base:] if not z3.is_quantifier(p) and not self.mentions(p, hv, mark, i)]
            useful = useful or bool(kept)
            app = []
            for key, get in self.seqs():
                q0 = get(self.view(self.cur_havoc(s2, norm), i, view0)) if False else None
            alts.append((kept, self.appended(s2, hv, mark, i)))
        useful = useful or any(a for _, a in alts)
        if not useful:
            return []

        def cand(view):
            j = fresh('j', IntS)
            ds = []
            for kept, app in alts:
                cs = [z3.substitute(p, (i, j)) for p in kept]
                for key, vals in app.items():
                    q = self.seq_at(view, key)
                    q0 = self.seq_at(view.entry, key)
                    if q is None or q0 is None:
                        return None
                    n0 = toz(q0.n)
                    for leaf, val in zip(q.leaves, vals):
                        if val is not None:
                            cs.append(Select(leaf, z3.simplify(n0 + j)) == z3.substitute(val, (i, j)))
                ds.append(And(cs) if len(cs) != 1 else cs[0])
            body = Or(ds) if len(ds) != 1 else ds[0]
            pats = select_pats_of(body, j)
            kw = {'patterns': pats} if pats else {}
            return z3.ForAll([j], Implies(And(0 <= j, j < view.i), body), **kw)
        return [('each-iteration', cand)]

    def mentions(self, t, hv, mark, i):
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in hv:
                    return True
                if '!' in nm and not x.eq(i):
                    try:
                        if int(nm.rsplit('!', 1)[1]) > mark:
                            return True
                    except ValueError:
                        pass
            elif z3.is_app(x):
                stack.extend(x.children())
        return False

    def seqs(self):
        return []

    def seq_at(self, view, key):
        kind, k = key
        try:
            if kind == 'cell':
                return self.ex.to_seq(view.st, Ref(k))
            q = view.get(k)
            return q if isinstance(q, Seq) else None
        except Unsupported:
            return None

    def appended(self, s2, hv, mark, i):
        """For each list that grew by exactly one element: the leaves of the new element (None if they depend on the state)."""
        out = {}
        keys = [('cell', a) for a, c in self.cells.items() if c[0] == 'seq']
        for key in keys:
            q = self.ex.to_seq(s2, Ref(key[1]))
            if q.shape is None:
                continue
            vals = []
            for leaf in q.leaves:
                if z3.is_store(leaf) and z3.is_const(leaf.arg(0)) and leaf.arg(0).decl().name() in hv:
                    val = leaf.arg(2)
                    vals.append(None if self.mentions(val, hv, mark, i) else val)
                else:
                    vals.append(None)
            if any(v is not None for v in vals):
                out[key] = vals
        return out


def select_pats_of(body, j):
    from .builtins import select_pats
    return select_pats(body, j)


def isnone(x):
    return z3.BoolVal(True) if x is None else x.isnone if isinstance(x, Maybe) else z3.BoolVal(False)


def some(x):
    return x.val if isinstance(x, Maybe) else x


def leaf_eq(ex, st, a, b):
    """Equality of two values of the same kind, or None."""
    try:
        return tobool(ex.eq(st, a, b))
    except Unsupported:
        return None


def rec_same(ex, st, a, b):
    """Every leaf equal (records, optionals)."""
    if isinstance(a, Maybe) and not isinstance(b, Maybe):
        if b is None:
            return a.isnone
        r = rec_same(ex, st, a.val, b)
        return None if r is None else And(Not(a.isnone), r)
    if isinstance(b, Maybe) and not isinstance(a, Maybe):
        return rec_same(ex, st, b, a)
    if isinstance(a, Maybe) and isinstance(b, Maybe):
        r = rec_same(ex, st, a.val, b.val)
        return None if r is None else And(a.isnone == b.isnone, Or(a.isnone, r))
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.cls is not b.cls:
            return None
        cs = [rec_same(ex, st, a.attrs[k], b.attrs[k]) for k in a.attrs]
        return None if any(c is None for c in cs) else And(cs) if cs else z3.BoolVal(True)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return None
        cs = [rec_same(ex, st, x, y) for x, y in zip(a.items, b.items)]
        return None if any(c is None for c in cs) else And(cs) if cs else z3.BoolVal(True)
    if isinstance(a, Choice) and isinstance(b, Choice) and len(a.options) == len(b.options) and all(
            same_const(x, y) for x, y in zip(a.options, b.options)):
        return a.tag == b.tag
    if isinstance(a, Choice):
        for k, o in enumerate(a.options):
            if same_const(o, b):
                return a.tag == k
        return z3.BoolVal(False)
    if isinstance(b, Choice):
        return rec_same(ex, st, b, a)
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.shape is None or b.shape is None or not shape_eq(a.shape, b.shape):
            return None
        return And([toz(a.n) == toz(b.n)] + [x == y for x, y in zip(a.leaves, b.leaves)])
    if a is None and b is None:
        return z3.BoolVal(True)
    if isz(a) and isz(b) and a.sort() == V and b.sort() == V:
        return a == b
    if isz(a) or isz(b):
        return leaf_eq(ex, st, a, b)
    if same_const(a, b):
        return z3.BoolVal(True)
    if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
        return z3.BoolVal(a == b)
    return None


def generic(loop):
    """Template candidates, by kind of variable."""
    ex = loop.ex
    out = []
    tnames = assigned([ast.Assign([loop.node.target], ast.Constant(0))]) if loop.isfor else []
    if loop.isfor:
        out.append(('index in range', lambda v: And(v.i >= 0, v.i <= v.n)))
    for nm, sh in loop.vars.items():
        if sh is UNB or isinstance(sh, (SConst, Walker)):
            continue

        def unchanged(v, nm=nm):
            e, x = v.entry.get(nm), v.get(nm)
            if e is UNB or x is UNB:
                return None
            return rec_same(ex, v.st, x, e)
        out.append((f'{nm} unchanged', unchanged))

        def last(v, nm=nm):
            x = v.get(nm)
            if z3.is_int_value(v.i) and v.i.as_long() == 0:
                return True
            if x is UNB or not loop.isfor:
                return None
            r = rec_same(ex, v.st, x, v.elem(v.st, z3.simplify(v.i - 1)))
            return None if r is None else Implies(v.i > 0, r)
        out.append((f'{nm} is the last element', last))
        if isinstance(sh, SLeaf) and sh.sort == IntS:
            def counts(v, nm=nm):
                e, x = v.entry.get(nm), v.get(nm)
                return None if e is UNB or x is UNB else toz(x) == toz(e) + v.i
            out.append((f'{nm} counts iterations', counts))

            def grows(v, nm=nm):
                e, x = v.entry.get(nm), v.get(nm)
                return None if e is UNB or x is UNB else toz(x) >= toz(e)
            out.append((f'{nm} grows', grows))
        if isinstance(sh, SMaybe) and nm not in tnames:
            def first(v, nm=nm):
                x = v.get(nm)
                return Implies(v.i > 0, Not(isnone(x)))
            out.append((f'{nm} is set after the first iteration', first))
            def none0(v, nm=nm):
                x = v.get(nm)
                return Implies(v.i == 0, isnone(x))
            out.append((f'{nm} is None before the first iteration', none0))
    for a, c in loop.cells.items():
        if c[0] == 'seq':
            def grows1(v, a=a):
                return toz(v.cell(a).n) == toz(v.entry.cell(a).n) + v.i
            out.append(('list grows by one', grows1))
        if c[0] == 'doc':
            def same(v, a=a):
                return v.root(a) == v.entry.root(a)
            out.append(('document unchanged', same))
    return out

"""A ghost file system for the checkpointing code, and the contracts of the operations it uses.

FS maps a path to what is there: nothing, a directory (its files by name), or something else. Every operation that
changes it calls `ex.crash(st, op)` for every state it can leave behind if the process dies in the middle or after."""
import ast
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.task import repo
from pydv.ex import isz, toz, toStr
from contracts.wiring import Path, Obj, ClsS, Lst, JOIN, ISDIR, PARENT, ABS, same, cls_of
from z3 import And, Or, Not, Implies, If

I, B = z3.IntSort(), z3.BoolSort()
_FC = z3.Datatype('FC')
_FC.declare('nofile')
_FC.declare('part', ('pid', I))
_FC.declare('dump', ('dobj', Obj), ('dhas', B), ('dsch', Lst))
FC = _FC.create()
FILES = z3.ArraySort(Str, FC)
_E = z3.Datatype('Ent')
_E.declare('nothing')
_E.declare('dir', ('files', FILES))
_E.declare('other', ('oid', I))
Ent = _E.create()
FSS = z3.ArraySort(Path, Ent)
NAME = z3.Function('path.name', Path, Str)
STRP = u.strfn('fmt::-1:Path', Path, Str)
PATHOF = z3.Function('path.of', Str, Path)
FSID = z3.Function('device', Path, I)
DEPTH = z3.Function('depth', Path, I)
UNDER = z3.Function('under', Path, Path, B)
TMPROOT = z3.Const('tmproot', Path)
HAS = z3.Function('str.has', Str, Str, B)            # the second occurs in the first
LATEST, LEN = u.strfn('str.startswith', Str, Str, B), u.strfn('strlen', Str, I)
SL12 = u.strfn('slice:-12:None', Str, Str)
from pydv.builtins import isint_str as ISINT, str2int as TOINT
NONINT = z3.Function('ends.not.int', Str, B)
FMT12 = u.strfn('fmt:012:-1:Int', I, Str)
EMPTYF = z3.K(Str, FC.nofile)
EMPTYD = Ent.dir(EMPTYF)


def ISCK(n):
    """n is the name of an automatic checkpoint."""
    return And(LATEST(n, lit('latest')), LEN(n) >= 12, ISINT(SL12(n)))


def KEY(n):
    return TOINT(SL12(n))


def axioms():
    p, q, r = z3.Consts('p q r', Path)
    n, m, k = z3.Consts('n m k', Str)
    v = z3.Int('v')
    return [
        forall([p, n], And(PARENT(JOIN(p, n)) == p, NAME(JOIN(p, n)) == n, DEPTH(JOIN(p, n)) == DEPTH(p) + 1), JOIN(p, n)),
        forall([p, n, q], UNDER(JOIN(p, n), q) == Or(JOIN(p, n) == q, UNDER(p, q)), UNDER(JOIN(p, n), q)),
        forall([p], UNDER(p, p), UNDER(p, p)),
        forall([p], PATHOF(STRP(p)) == p, STRP(p)),
        forall([n, m], LEN(u.cat(n, m)) == LEN(n) + LEN(m), u.cat(n, m)),
        forall([n], LEN(n) >= 0, LEN(n)),
        forall([n, m, k], Implies(Or(HAS(n, k), HAS(m, k)), HAS(u.cat(n, m), k)), HAS(u.cat(n, m), k)),
        forall([n, m], Implies(LEN(m) >= 12, SL12(u.cat(n, m)) == SL12(m)), SL12(u.cat(n, m))),
        forall([n], Implies(LEN(n) == 12, SL12(n) == n), SL12(n)),
        forall([n, m], Implies(NONINT(m), NONINT(u.cat(n, m))), NONINT(u.cat(n, m))),
        forall([n], Implies(NONINT(n), Not(ISINT(SL12(n)))), SL12(n)),
        forall([v], Implies(And(0 <= v, v < 10 ** 12), And(LEN(FMT12(v)) == 12, ISINT(FMT12(v)), TOINT(FMT12(v)) == v)), FMT12(v)),
    ] + literals()


def literals():
    """What is known of the strings written in the code."""
    out = []
    p, x = z3.Const('p', Path), z3.Const('x', Str)
    tree = repo().modules['hyperstate.hyperstate'].tree
    for c in sorted({n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)} | {'latest'}):
        if not c or len(c) > 40:
            continue
        L = lit(c)
        out += [LEN(L) == len(c), LATEST(L, lit('latest')) == z3.BoolVal(c.startswith('latest')), NONINT(L) == z3.BoolVal(c[-1].isalpha() or c[-1] in '.-/')]
        if c.startswith('latest') or not 'latest'.startswith(c):
            out.append(forall([x], LATEST(u.cat(L, x), lit('latest')) == z3.BoolVal(c.startswith('latest')), LATEST(u.cat(L, x), lit('latest'))))
        for tail, nm in ((L, lambda a: a), (u.cat(L, x), lambda a: u.cat(a, x))):
            whole = u.cat(STRP(p), tail)
            vs = [p, x] if tail is not L else [p]
            if c == '/':
                if tail is not L:
                    out.append(forall(vs, PATHOF(whole) == JOIN(p, x), whole))
            elif c.startswith('/') and '/' not in c[1:]:
                out.append(forall(vs, PATHOF(whole) == JOIN(p, nm(lit(c[1:]))), whole))
            elif '/' not in c:
                out.append(forall(vs, PATHOF(whole) == JOIN(PARENT(p), u.cat(NAME(p), tail)), whole))
    return out


TRUST = ('string facts (length of concatenations and of zero-padded numbers, parsing a number back, prefixes), path facts (parent and name '
         'of a joined path) and the contracts of os, shutil, tempfile and pathlib operations are taken as given; names hold no separator')


def install(ex, st, t, ck):
    """Hooks for every file-system operation. `ex.crash(st, op, fs)` is set by the caller."""
    t.trust(TRUST)
    fs = lambda s: s.ghost['fs']

    def setfs(s, v):
        s.ghost = dict(s.ghost, fs=v)

    def topath(s, x):
        x = ex.deref(s, x)
        if isinstance(x, Maybe):
            x = ex.unwrap(s, x)
        if isinstance(x, str):
            return PATHOF(lit(x))
        if isz(x) and x.sort() == Str:
            return x.arg(0) if x.decl().eq(STRP) else PATHOF(x)
        if isz(x) and x.sort() == Path:
            return x
        raise Unsupported(f'path {x!r}')

    ex.topath = topath

    def crash(s, op, v):
        ex.crash(s, op, v)

    def err(s, node, errno=None, by='fs'):
        """The operation may fail for reasons of its own, before changing anything."""
        s2 = s.fork()
        e = fresh('errno', I)
        if errno is not None:
            s2.assume(e == errno)
        else:
            s2.assume(e != EXDEV)
        return (s2, Exc(bt('OSError'), node=node, attrs={'by': by, 'errno': e}))
    EXDEV = z3.Int('errno.EXDEV')
    ex.ext['const:errno.EXDEV'] = EXDEV

    def rename(ex, s, args, kw, node):
        src, dst = topath(s, args[0]), topath(s, args[1])
        out = []
        for s1, ok in ex.split(s, fs(s)[src] != Ent.nothing):
            if not ok:
                out.append((s1, Exc(bt('OSError'), node=node, attrs={'by': 'absent', 'errno': fresh('errno', I)})))
                continue
            for s2, occ in ex.split(s1, And(fs(s1)[dst] != Ent.nothing, fs(s1)[dst] != EMPTYD)):
                if occ:
                    out.append(err(s2, node, by='occupied'))
                    continue
                for s3, here in ex.split(s2, FSID(PARENT(src)) == FSID(PARENT(dst))):
                    if not here:
                        out.append(err(s3, node, errno=EXDEV))
                        continue
                    out.append(err(s3, node))
                    v = z3.Store(z3.Store(fs(s3), dst, fs(s3)[src]), src, Ent.nothing)
                    crash(s3, 'rename', v)
                    setfs(s3, v)
                    out.append((s3, None))
        return out
    for nm in ('os.rename', 'os.replace'):
        ex.ext[nm] = rename

    def partial(s):
        return Ent.dir(fresh('partial', FILES))

    def move(ex, s, args, kw, node):
        src, dst = topath(s, args[0]), topath(s, args[1])
        out = []
        for s1, into in ex.split(s, Ent.is_dir(fs(s)[dst])):
            real = JOIN(dst, NAME(src)) if into else dst
            for s2, ok in ex.split(s1, And(fs(s1)[src] != Ent.nothing, Implies(z3.BoolVal(into), fs(s1)[real] == Ent.nothing))):
                if not ok:
                    out.append((s2, Exc(bt('OSError'), node=node, attrs={'by': 'absent', 'errno': fresh('errno', I)})))
                    continue
                for s3, here in ex.split(s2, FSID(PARENT(src)) == FSID(PARENT(real))):
                    f = fs(s3)
                    full = z3.Store(f, real, f[src])
                    if not here:
                        crash(s3, 'move (copying)', z3.Store(f, real, partial(s3)))
                        s4 = s3.fork()
                        setfs(s4, z3.Store(f, real, partial(s4)))
                        out.append(err(s4, node))
                        crash(s3, 'move (copied)', full)
                        crash(s3, 'move (removing)', z3.Store(full, src, partial(s3)))
                    else:
                        out.append(err(s3, node))
                    v = z3.Store(full, src, Ent.nothing)
                    crash(s3, 'move', v)
                    setfs(s3, v)
                    out.append((s3, args[1]))
        return out
    ex.ext['shutil.move'] = move

    def copytree(ex, s, args, kw, node):
        src, dst = topath(s, args[0]), topath(s, args[1])
        f = fs(s)
        crash(s, 'copy (copying)', z3.Store(f, dst, partial(s)))
        s2 = s.fork()
        setfs(s2, z3.Store(f, dst, partial(s2)))
        v = z3.Store(f, dst, f[src])
        crash(s, 'copy', v)
        setfs(s, v)
        return [(s, args[1]), err(s2, node)]
    ex.ext['shutil.copytree'] = copytree

    def gone(s, p, op):
        """Everything at or below p disappears, in any order."""
        f, q = fs(s), z3.Const('q', Path)
        mid = fresh('fs', FSS)
        s1 = s.fork()
        s1.assume(forall([q], Implies(Not(UNDER(q, p)), mid[q] == f[q]), mid[q]))
        crash(s1, op + ' (removing)', mid)
        end = fresh('fs', FSS)
        s.assume(forall([q], If(UNDER(q, p), end[q] == Ent.nothing, end[q] == f[q]), end[q]))
        crash(s, op, end)
        setfs(s, end)

    def rmtree(ex, s, args, kw, node):
        e = err(s, node)
        gone(s, topath(s, args[0]), 'rmtree')
        return [(s, None), e]
    ex.ext['shutil.rmtree'] = rmtree

    def mkdir(ex, s, args, kw, node):
        p = topath(s, args[0])
        ok = kw.get('exist_ok', False)
        out = [err(s, node)]
        for s1, free in ex.split(s, fs(s)[p] == Ent.nothing):
            if free:
                v = z3.Store(fs(s1), p, EMPTYD)
                crash(s1, 'mkdir', v)
                setfs(s1, v)
                out.append((s1, None))
            elif ok is True:
                for s2, d in ex.split(s1, Ent.is_dir(fs(s1)[p])):
                    out.append((s2, None if d else Exc(bt('OSError'), node=node, attrs={'by': 'occupied', 'errno': fresh('errno', I)})))
            else:
                out.append((s1, Exc(bt('OSError'), node=node, attrs={'by': 'occupied', 'errno': fresh('errno', I)})))
        return out
    for nm in ('os.mkdir', 'os.makedirs'):
        ex.ext[nm] = mkdir

    def newtmp(s, kw, args, node):
        d = kw.get('dir', args[2] if len(args) > 2 else None)
        base = TMPROOT if d is None else topath(s, d)
        pre = kw.get('prefix', args[1] if len(args) > 1 else None)
        n = fresh('tmpname', Str)
        T = JOIN(base, n)
        q = z3.Const('q', Path)
        e = err(s, node)
        # a fresh name; nothing is below a path that does not exist
        s.assume(fs(s)[T] == Ent.nothing)
        s.assume(forall([q], Implies(UNDER(q, T), fs(s)[q] == Ent.nothing), UNDER(q, T)))
        s.assume(FSID(T) == FSID(base), *[T != r for r in getattr(ex, 'reserved', ())])
        for nn in [z3.Const('n', Str)]:
            s.assume(forall([nn], fs(s)[JOIN(T, nn)] == Ent.nothing, JOIN(T, nn)))
        if pre is None or isinstance(pre, str) and not pre.startswith('latest'[:len(pre)]):
            s.assume(Not(LATEST(n, lit('latest'))))
        v = z3.Store(fs(s), T, EMPTYD)
        crash(s, 'making a temporary directory', v)
        setfs(s, v)
        return T, e
    TmpS = z3.DeclareSort('TempDir')
    TMPP, TMPO = z3.Function('tmp.path', TmpS, Path), z3.Function('tmp.of', Path, TmpS)
    p_ = z3.Const('p', Path)
    st.assume(forall([p_], TMPP(TMPO(p_)) == p_, TMPO(p_)))

    def tempdir(ex, s, args, kw, node):
        T, e = newtmp(s, kw, args, node)
        return [(s, TMPO(T)), e]
    ex.ext['tempfile.TemporaryDirectory'] = tempdir

    def mkdtemp(ex, s, args, kw, node):
        T, e = newtmp(s, kw, args, node)
        return [(s, STRP(T)), e]
    ex.ext['tempfile.mkdtemp'] = mkdtemp

    def tattr(ex, s, v, name):
        where = v.arg(0) if v.decl().eq(TMPO) else TMPP(v)

        def leave(ex, s, a, k, n):
            gone(s, where, 'removing the temporary directory')
            return [(s, None)]
        if name == 'name':
            return [(s, STRP(where))]
        if name == '__enter__':
            return [(s, Lam(name, lambda ex, s, a, k, n: [(s, STRP(where))]))]
        if name in ('__exit__', 'cleanup'):
            return [(s, Lam(name, leave))]
        return None
    ex.attrs['TempDir'] = tattr

    def uuid4(ex, s, args, kw, node):
        U = fresh('uuid', Str)
        q = z3.Const('q', Path)
        # nothing is called after an identifier that was just drawn
        s.assume(HAS(U, U))
        s.assume(forall([q], Implies(HAS(NAME(q), U), fs(s)[q] == Ent.nothing), NAME(q)))
        s.assume(forall([q], Implies(fs(s)[q] != Ent.nothing, Not(HAS(NAME(q), U))), fs(s)[q]))
        return [(s, UUID(U))]
    UuidS = z3.DeclareSort('Uuid')
    UUID, USTR = z3.Function('uuid', Str, UuidS), u.strfn('fmt::-1:Uuid', UuidS, Str)
    s_ = z3.Const('s', Str)
    st.assume(forall([s_], USTR(UUID(s_)) == s_, UUID(s_)))
    ex.ext['uuid.uuid4'] = uuid4
    ex.ext['uuid.uuid1'] = uuid4
    ex.attrs['Uuid'] = lambda ex, s, v, name: [(s, USTR(v))] if name == 'hex' else None

    def exists(ex, s, args, kw, node):
        return [(s, fs(s)[topath(s, args[0])] != Ent.nothing)]

    def isdir(ex, s, args, kw, node):
        return [(s, Ent.is_dir(fs(s)[topath(s, args[0])]))]
    ex.ext['os.path.exists'], ex.ext['os.path.isdir'] = exists, isdir
    ex.ext['os.path.join'] = lambda ex, s, args, kw, node: [(s, STRP(JOIN(topath(s, args[0]), toStr(args[1]))))]
    ex.ext['os.path.basename'] = lambda ex, s, args, kw, node: [(s, NAME(topath(s, args[0])))]
    ex.ext['os.path.dirname'] = lambda ex, s, args, kw, node: [(s, STRP(PARENT(topath(s, args[0]))))]
    ex.ext['pathlib.Path'] = lambda ex, s, args, kw, node: [(s, topath(s, args[0]))]
    ex.ext['binop:Div'] = lambda ex, s, a, b: [(s, JOIN(a, toStr(b)))] if isz(a) and a.sort() == Path else None

    def attr(ex, s, v, name):
        m = {'exists': exists, 'is_dir': isdir, 'mkdir': mkdir, 'rename': rename, 'replace': rename}.get(name)
        if m is not None:
            return [(s, Lam(name, lambda ex, s, a, k, n: m(ex, s, [v] + list(a), k, n)))]
        if name == 'parent':
            return [(s, PARENT(v))]
        if name == 'name':
            return [(s, NAME(v))]
        if name == 'absolute':
            return [(s, Lam(name, lambda ex, s, a, k, n: [(s, ABS(v))]))]
        if name in ('with_name', 'joinpath'):
            return [(s, Lam(name, lambda ex, s, a, k, n: [(s, JOIN(PARENT(v) if name == 'with_name' else v, toStr(a[0])))]))]
        return None
    ex.attrs['Path'] = attr

    def isinst(ex, s, a, b):
        if isz(a) and a.sort() == Path and b is bt('str'):
            return [(s, False)]
        return None
    ex.ext['isinstance'] = isinst

    def typed_dump(ex, s, fn, args, kwargs, node):
        out = []
        for s1, e in ex.bind_args(s, fn, args, kwargs, node):
            if isinstance(e, Exc):
                out.append((s1, e))
                continue
            obj, file, sch = (e[list(e)[k]] for k in range(3))
            file = ex.deref(s1, file)
            file = topath(s1, file)
            obj = ex.deref(s1, obj)
            obj = ex.unwrap(s1, obj) if isinstance(obj, Maybe) else obj
            d, n = PARENT(file), NAME(file)
            f = fs(s1)
            if sch is None:
                cs = [(s1, FC.dump(obj, z3.BoolVal(False), z3.Const('nosch', Lst)))]
            else:
                sch = ex.deref(s1, sch)
                h = s1.heap[sch.a] if isinstance(sch, Ref) else None
                if isinstance(h, HDict) and not h.items:
                    cs = [(s1, FC.dump(obj, z3.BoolVal(False), z3.Const('nosch', Lst)))]
                elif isz(sch) and sch.sort() == Lst:
                    cs = [(s1, FC.dump(obj, z3.BoolVal(True), sch))]
                else:
                    raise Unsupported('schedules to dump')
            for s2, c in cs:
                at = lambda c, f=f, d=d, n=n: z3.Store(f, d, Ent.dir(z3.Store(Ent.files(f[d]), n, c)))
                for s3, there in ex.split(s2, Ent.is_dir(f[d])):
                    if not there:
                        out.append((s3, Exc(bt('FileNotFoundError'), node=node, attrs={'by': 'absent', 'errno': fresh('errno', I)})))
                        continue
                    crash(s3, 'dump (writing)', at(FC.part(fresh('part', I))))
                    s4 = s3.fork()
                    setfs(s4, at(FC.part(fresh('part', I))))
                    out.append((s4, Exc(bt('Exception'), node=node, attrs={'by': 'dump'})))
                    crash(s3, 'dump', at(c))
                    setfs(s3, at(c))
                    out.append((s3, fresh('text', Str)))
        return out
    ex.contracts['hyperstate.hyperstate:_typed_dump'] = typed_dump
    t.assumed.add('hyperstate.hyperstate:_typed_dump')

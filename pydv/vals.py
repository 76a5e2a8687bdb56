"""Executor values. Python constants and z3 terms stand for themselves; everything else is below."""
import z3
from . import univ as u


class Unsupported(Exception):
    """The engine cannot represent what the code does here: reported as an undischarged obligation."""


class Exc:
    """A raised exception (an outcome, not a value in the heap)."""

    def __init__(self, cls, args=(), node=None, attrs=None):
        self.cls, self.args, self.node, self.attrs = cls, args, node, attrs or {}

    def __repr__(self):
        line = getattr(self.node, 'lineno', '?')
        return f'{clsname(self.cls)} at line {line}'


def clsname(c):
    return c if isinstance(c, str) else getattr(c, 'name', None) or str(c)


class BType:
    """A builtin class (type object)."""
    _all = {}

    def __init__(self, name, bases=()):
        self.name, self.bases = name, bases
        BType._all[name] = self

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro()
        return out

    def __repr__(self):
        return f'<type {self.name}>'


T_object = BType('object')
for _n in ('int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bytes', 'type', 'NoneType'):
    BType(_n, (T_object,))
BType('bool', (BType._all['int'],))
BType('BaseException', (T_object,))
BType('Exception', (BType._all['BaseException'],))
BType('KeyboardInterrupt', (BType._all['BaseException'],))
for _n in ('TypeError', 'ValueError', 'AttributeError', 'RuntimeError', 'NameError', 'AssertionError', 'OSError',
           'ArithmeticError', 'LookupError', 'StopIteration', 'NotImplementedError_', 'ImportError'):
    BType(_n, (BType._all['Exception'],))
BType('KeyError', (BType._all['LookupError'],))
BType('IndexError', (BType._all['LookupError'],))
BType('ZeroDivisionError', (BType._all['ArithmeticError'],))
BType('OverflowError', (BType._all['ArithmeticError'],))
BType('UnboundLocalError', (BType._all['NameError'],))
BType('NotImplementedError', (BType._all['RuntimeError'],))
BType('FileNotFoundError', (BType._all['OSError'],))
BType('ModuleNotFoundError', (BType._all['ImportError'],))
BType('ABC', (T_object,)); BType('Generic', (T_object,)); BType('Enum', (T_object,)); BType('EnumMeta', (BType._all['type'],))


def bt(name):
    return BType._all[name]


class ClassVal:
    """A class defined in the verified repository (or by a contract, for abstract receivers)."""

    def __init__(self, name, node, mod, bases, qual):
        self.name, self.node, self.mod, self.bases, self.qual = name, node, mod, bases, qual
        self.members = {}
        self.isdataclass = False
        self.isenum = False
        self.fields = []       # dataclass: (name, annotation node, default node or None, factory node or None)

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, (ClassVal, BType)):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        if T_object not in out:
            out.append(T_object)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.members:
                return c.members[name], c
        return None, None

    def allfields(self):
        out = {}
        for c in reversed(self.mro()):
            if isinstance(c, ClassVal) and c.isdataclass:
                for f in c.fields:
                    out[f[0]] = f
        return list(out.values())

    def __repr__(self):
        return f'<class {self.qual}>'


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'

    def __eq__(self, o):
        return isinstance(o, EnumMember) and (o.cls, o.name) == (self.cls, self.name)

    def __hash__(self):
        return hash((self.cls.name, self.name))


class FnVal:
    def __init__(self, node, mod, qual, fid=None, cls=None, kind='fn', defaults=None, kwdefaults=None):
        self.node, self.mod, self.qual, self.fid, self.cls, self.kind = node, mod, qual, fid, cls, kind
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return f'<fn {self.qual}>'


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin:
    """A function whose meaning the engine or a contract supplies: handler(ex, st, args, kwargs, node)."""

    def __init__(self, name, handler):
        self.name, self.handler = name, handler

    def __repr__(self):
        return f'<builtin {self.name}>'


class ModVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<module {self.name}>'


class Ref:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(('ref', self.a))

    def __repr__(self):
        return f'&{self.a}'


class Tup:
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f'Tup{self.items}'


class Maybe:
    """None if `isnone`, else `val`."""

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


class Choice:
    """options[tag]; the tag is an Int term within range."""

    def __init__(self, tag, options):
        self.tag, self.options = tag, list(options)


class Rec:
    """An immutable snapshot of an object (an element of a symbolic sequence)."""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def __repr__(self):
        return f'Rec({clsname(self.cls)})'


class Seq:
    """An immutable sequence of symbolic length: element i has shape `shape` with leaves leaf[i+off]."""

    def __init__(self, n, shape, leaves, off=0, kind='list', owner=None):
        self.n, self.shape, self.leaves, self.off, self.kind = n, shape, leaves, off, kind

    def at(self, i):
        idx = i if (isinstance(self.off, int) and self.off == 0) else i + self.off
        if isinstance(idx, int):
            idx = z3.IntVal(idx)
        return self.shape.build([z3.simplify(z3.Select(a, idx)) if False else z3.Select(a, idx) for a in self.leaves])


class SetVal:
    """A set of Str: characteristic array."""

    def __init__(self, arr):
        self.arr = arr


class MapVal:
    """An immutable dict with keys of sort ks: membership array, value shape and leaf arrays, and insertion order."""

    def __init__(self, ks, has, shape, leaves, n, keys):
        self.ks, self.has, self.shape, self.leaves, self.n, self.keys = ks, has, shape, list(leaves), n, keys

    def at(self, k):
        return self.shape.build([z3.Select(a, k) for a in self.leaves])

    def idx(self, k):
        return u.strfn(f'map.idx:{self.ks}', z3.ArraySort(z3.IntSort(), self.ks), self.ks, z3.IntSort())(self.keys, k)

    def facts(self):
        """What makes it a dict: `keys` lists exactly the members, once each."""
        i, k = u.fresh('i', z3.IntSort()), u.fresh('k', self.ks)
        return [self.n >= 0,
                u.forall([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(self.has[self.keys[i]], self.idx(self.keys[i]) == i)), self.keys[i]),
                u.forall([k], z3.Implies(self.has[k], z3.And(0 <= self.idx(k), self.idx(k) < self.n, self.keys[self.idx(k)] == k)), self.has[k])]


class DocPtr:
    """A position in a mutable document cell. segs: list of ('p', SA array, Int i) or ('k', Str term)."""

    def __init__(self, a, segs=()):
        self.a, self.segs = a, tuple(segs)

    def __repr__(self):
        return f'Doc&{self.a}{list(self.segs)}'


class Lam:
    """A Python-level callable standing for a value supplied by a contract."""

    def __init__(self, name, f):
        self.name, self.f = name, f


# ---- heap objects (immutable contents; the heap maps address -> object) -----------------------------
class HList:
    def __init__(self, items):
        self.items = tuple(items)


class HSeq:
    """A mutable list of symbolic length."""

    def __init__(self, seq):
        self.seq = seq


class HDict:
    def __init__(self, items=()):
        self.items = tuple(items)    # (concrete key, value)

    def get(self, k):
        for kk, v in self.items:
            if kk == k and type(kk) == type(k):
                return v
        return None

    def has(self, k):
        return any(kk == k and type(kk) == type(k) for kk, _ in self.items)


class HDoc:
    """A document cell: root value, and whether it was moved into another cell."""

    def __init__(self, root, moved=False):
        self.root, self.moved = root, moved


class HSet:
    def __init__(self, items):
        self.items = tuple(items)    # concrete members


class HSSet:
    """A mutable set of Str."""

    def __init__(self, arr):
        self.arr = arr


class HMap:
    """A mutable dict of symbolic size."""

    def __init__(self, m):
        self.m = m


class HObj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


# ---- shapes: the static structure of a value whose leaves are z3 terms -------------------------------
class Shape:
    pass


class SConst(Shape):
    def __init__(self, v):
        self.v = v

    def sorts(self):
        return []

    def build(self, leaves):
        return self.v

    def __repr__(self):
        return f'={self.v!r}'


class SLeaf(Shape):
    def __init__(self, sort):
        self.sort = sort

    def sorts(self):
        return [self.sort]

    def build(self, leaves):
        return leaves[0]

    def __repr__(self):
        return str(self.sort)


class SMaybe(Shape):
    def __init__(self, inner):
        self.inner = inner

    def sorts(self):
        return [z3.BoolSort()] + self.inner.sorts()

    def build(self, leaves):
        return Maybe(leaves[0], self.inner.build(leaves[1:]))

    def __repr__(self):
        return f'Maybe({self.inner})'


class SChoice(Shape):
    def __init__(self, options):
        self.options = options

    def sorts(self):
        return [z3.IntSort()]

    def build(self, leaves):
        return Choice(leaves[0], self.options)

    def __repr__(self):
        return f'Choice{self.options}'


class SRec(Shape):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def sorts(self):
        return [s for f in self.fields.values() for s in f.sorts()]

    def build(self, leaves):
        out, i = {}, 0
        for k, f in self.fields.items():
            n = len(f.sorts())
            out[k] = f.build(leaves[i:i + n])
            i += n
        return Rec(self.cls, out)

    def __repr__(self):
        return f'Rec({clsname(self.cls)},{self.fields})'


class STup(Shape):
    def __init__(self, items):
        self.items = items

    def sorts(self):
        return [s for f in self.items for s in f.sorts()]

    def build(self, leaves):
        out, i = [], 0
        for f in self.items:
            n = len(f.sorts())
            out.append(f.build(leaves[i:i + n]))
            i += n
        return Tup(out)

    def __repr__(self):
        return f'Tup{self.items}'


class SSeq(Shape):
    """A sequence: length leaf and one array per element leaf."""

    def __init__(self, elem, kind='list'):
        self.elem, self.kind = elem, kind

    def sorts(self):
        return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.elem.sorts()]

    def build(self, leaves):
        return Seq(leaves[0], self.elem, leaves[1:], 0, self.kind)

    def __repr__(self):
        return f'Seq({self.elem})'


class SMap(Shape):
    """A dict with keys of one sort."""

    def __init__(self, ks, elem):
        self.ks, self.elem = ks, elem

    def sorts(self):
        return [z3.ArraySort(self.ks, z3.BoolSort()), z3.IntSort(), z3.ArraySort(z3.IntSort(), self.ks)] + [
            z3.ArraySort(self.ks, s) for s in self.elem.sorts()]

    def build(self, leaves):
        return MapVal(self.ks, leaves[0], self.elem, leaves[3:], leaves[1], leaves[2])

    def __repr__(self):
        return f'Map({self.ks},{self.elem})'


def shape_eq(a, b):
    if type(a) != type(b):
        return False
    if type(a).__name__ == 'ExcVal':         # (arguments are not told apart)
        return a.cls is b.cls and str(a.attrs) == str(b.attrs)
    if isinstance(a, SConst):
        return same_const(a.v, b.v)
    if isinstance(a, SLeaf):
        return a.sort == b.sort
    if isinstance(a, SMaybe):
        return shape_eq(a.inner, b.inner)
    if isinstance(a, SChoice):
        return len(a.options) == len(b.options) and all(same_const(x, y) for x, y in zip(a.options, b.options))
    if isinstance(a, SRec):
        return a.cls is b.cls and list(a.fields) == list(b.fields) and all(
            shape_eq(a.fields[k], b.fields[k]) for k in a.fields)
    if isinstance(a, STup):
        return len(a.items) == len(b.items) and all(shape_eq(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, SSeq):
        return shape_eq(a.elem, b.elem)
    if isinstance(a, SMap):
        return a.ks == b.ks and shape_eq(a.elem, b.elem)
    return False


def same_const(a, b):
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    if isinstance(a, FnVal) and isinstance(b, FnVal):
        return a.node is b.node and a.fid == b.fid
    if isinstance(a, Bound) and isinstance(b, Bound):
        return same_const(a.fn, b.fn) and same_const(a.self_, b.self_)
    if isinstance(a, DocPtr) and isinstance(b, DocPtr):
        return a.a == b.a and segs_eq(a.segs, b.segs)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same_const(x, y) for x, y in zip(a.items, b.items))
    if type(a) != type(b):
        return False
    try:
        return a is b or a == b
    except Exception:
        return False


def segs_eq(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and all(p.eq(q) for p, q in zip(x[1:], y[1:])) for x, y in zip(a, b))

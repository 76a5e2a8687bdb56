"""The SMT universe: how Python values of the verified code are represented.

Str    uninterpreted sort of strings; literals are pairwise distinct constants
Cls    uninterpreted sort of classes
V      dynamically typed values (documents, config values), a datatype
       with native SMT arrays for dicts (Str -> V, `absent` for missing keys)
       and lists/tuples (length + Int -> V, `absent` outside the range)
Ty     type annotations as reflected by `typing`, a datatype
Floats are mathematical reals, ints are unbounded (as in Python).
"""
import z3
from z3 import (And, Or, Not, Implies, If, ForAll, Exists, IntSort, RealSort, BoolSort,
                ArraySort, Function, Const, Consts, Int, Bool, Real, IntVal, BoolVal, K,
                Select, Store, Datatype, DatatypeSort, DeclareSort, is_expr)

Str = DeclareSort('Str')
Cls = DeclareSort('Cls')
_Vf, _Tyf = DatatypeSort('V'), DatatypeSort('Ty')
_V, _Ty = Datatype('V'), Datatype('Ty')
_V.declare('absent')
_V.declare('none')
_V.declare('bool', ('b', BoolSort()))
_V.declare('int', ('i', IntSort()))
_V.declare('flt', ('r', RealSort()))
_V.declare('str', ('s', Str))
_V.declare('lst', ('ln', IntSort()), ('la', ArraySort(IntSort(), _Vf)))
_V.declare('tup', ('tn', IntSort()), ('ta', ArraySort(IntSort(), _Vf)))
_V.declare('dict', ('m', ArraySort(Str, _Vf)))
_V.declare('nt', ('ntname', Str), ('ntm', ArraySort(Str, _Vf)))   # namedtuple instance
_V.declare('obj', ('cls', Cls), ('om', ArraySort(Str, _Vf)))      # dataclass instance
_V.declare('enm', ('ecls', Cls), ('eval', _Vf))                   # enum member (by value)
_V.declare('ty', ('tyv', _Tyf))
_V.declare('opq', ('oid', IntSort()))                             # anything else
_Ty.declare('TInt'); _Ty.declare('TFlt'); _Ty.declare('TStr'); _Ty.declare('TBool')
_Ty.declare('TNoneT')
_Ty.declare('TList', ('tl', _Tyf))
_Ty.declare('TTup', ('ttn', IntSort()), ('tta', ArraySort(IntSort(), _Tyf)))
_Ty.declare('TDict', ('tk', _Tyf), ('tv', _Tyf))
_Ty.declare('TOpt', ('to', _Tyf))
_Ty.declare('TUnion', ('tun', IntSort()), ('tua', ArraySort(IntSort(), _Tyf)))
_Ty.declare('TData', ('tc', Cls))
_Ty.declare('TEnum', ('te', Cls))
_Ty.declare('TLit', ('tln', IntSort()), ('tla', ArraySort(IntSort(), _Vf)))
_Ty.declare('TOther', ('tx', IntSort()))
V, Ty = z3.CreateDatatypes(_V, _Ty)
M = ArraySort(Str, V)
LA = ArraySort(IntSort(), V)
SA = ArraySort(IntSort(), Str)

EMPTY_M = K(Str, V.absent)
EMPTY_LA = K(IntSort(), V.absent)

_fresh = [0]


def fresh(name, sort):
    _fresh[0] += 1
    return Const(f'{name}!{_fresh[0]}', sort)


def reset_fresh():
    _fresh[0] = 0


# ---- string literals ------------------------------------------------------------------------
_lits = {}


def lit(s):
    if s not in _lits:
        _lits[s] = Const('"' + ''.join(c if c.isalnum() or c in '_-.!@' else '%%%x' % ord(c) for c in s) + '"', Str)
    return _lits[s]


def literal_axioms():
    return [z3.Distinct(*_lits.values())] if len(_lits) > 1 else []


def litval(t):
    for s, c in _lits.items():
        if c.eq(t):
            return s
    return None


cat = Function('cat', Str, Str, Str)
int2str = Function('int2str', IntSort(), Str)
v2str = Function('v2str', V, Str)
fmt = {}


def strfn(name, *sorts):
    """An uninterpreted function on strings, shared by name."""
    if name not in fmt:
        fmt[name] = Function(name, *sorts)
    return fmt[name]


isnum = Function('isnum', Str, BoolSort())        # float(s) accepts s
str2num = Function('str2num', Str, RealSort())    # its value (finite)

# ---- dict key order ----------------------------------------------------------------------------
klen = Function('klen', M, IntSort())
kat = Function('kat', M, IntSort(), Str)
kidx = Function('kidx', M, Str, IntSort())

# ---- Python equality on dynamic values ---------------------------------------------------------
pyeq = Function('pyeq', V, V, BoolSort())


def is_num(v):
    return Or(V.is_int(v), V.is_flt(v), V.is_bool(v))


def num(v):
    return If(V.is_int(v), z3.ToReal(V.i(v)), If(V.is_flt(v), V.r(v), If(V.b(v), z3.RealVal(1), z3.RealVal(0))))


def is_cont(v):
    return Or(V.is_lst(v), V.is_tup(v), V.is_dict(v), V.is_nt(v), V.is_obj(v))


def base_axioms():
    m, = Consts('m', M)
    k, = Consts('k', Str)
    i, j = z3.Ints('i j')
    v, w = Consts('v w', V)
    ax = [
        ForAll([m], klen(m) >= 0, patterns=[klen(m)]),
        klen(EMPTY_M) == 0,
        ForAll([m, k], Implies(m[k] != V.absent,
                               And(0 <= kidx(m, k), kidx(m, k) < klen(m), kat(m, kidx(m, k)) == k)),
               patterns=[z3.MultiPattern(m[k], klen(m))]),
        ForAll([m, i], Implies(And(0 <= i, i < klen(m)),
                               And(m[kat(m, i)] != V.absent, kidx(m, kat(m, i)) == i)),
               patterns=[kat(m, i)]),
        # Python ==: numbers by value, None/str/enum/type structurally, containers abstractly
        ForAll([v, w], pyeq(v, w) == If(And(is_num(v), is_num(w)), num(v) == num(w),
                                        If(Or(v == w), True,
                                           If(And(is_cont(v), is_cont(w)), pyeq(v, w), False))),
               patterns=[pyeq(v, w)]),
    ]
    return ax


# ---- paths into documents ------------------------------------------------------------------------
# getp(v, p, i): the value reached from v by the first i segments of path p
# putp(v, p, i, w): v with the value reached by the first i segments replaced by w
getp = Function('getp', V, SA, IntSort(), V)
putp = Function('putp', V, SA, IntSort(), V, V)


def child(v, k):
    """Value at key k of a dict value, `absent` if v is not a dict."""
    return If(V.is_dict(v), V.m(v)[k], V.absent)


def mset(v, k, w):
    return V.dict(Store(V.m(v), k, w))


def path_axioms():
    v, w = Consts('v w', V)
    p, = Consts('p', SA)
    i, = z3.Ints('i')
    return [
        ForAll([v, p], getp(v, p, 0) == v, patterns=[getp(v, p, 0)]),
        ForAll([v, p, i], Implies(i > 0, getp(v, p, i) == child(getp(v, p, i - 1), p[i - 1])),
               patterns=[getp(v, p, i)]),
    ]


def box(x):
    """A Python constant or a typed term as a dynamic value."""
    if x is None:
        return V.none
    if isinstance(x, bool):
        return V.bool(BoolVal(x))
    if isinstance(x, int):
        return V.int(IntVal(x))
    if isinstance(x, float):
        return V.flt(z3.RealVal(float_frac(x)))
    if isinstance(x, str):
        return V.str(lit(x))
    if is_expr(x):
        s = x.sort()
        if s == V:
            return x
        if s == BoolSort():
            return V.bool(x)
        if s == IntSort():
            return V.int(x)
        if s == RealSort():
            return V.flt(x)
        if s == Str:
            return V.str(x)
        if s == Ty:
            return V.ty(x)
    raise TypeError(f'cannot box {x!r}')


def float_frac(x):
    from fractions import Fraction
    f = Fraction(x)
    return f'{f.numerator}/{f.denominator}'


def goodpat(t):
    """Can t serve as a pattern (no interpreted structure the solver would rewrite away)?"""
    if z3.is_quantifier(t):
        return False
    if z3.is_var(t) or z3.is_const(t):
        return True
    k = t.decl().kind()
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
        return False
    return all(goodpat(c) for c in t.children())


def forall(vs, body, *pats):
    """ForAll with alternative patterns; a tuple is a multi-pattern; unusable patterns are dropped."""
    ps = []
    for p in pats:
        p = p if isinstance(p, tuple) else (p,)
        if all(goodpat(x) and not z3.is_const(x) for x in p):
            ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)

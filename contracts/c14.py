"""C14: array and blob payloads are restored bit for bit."""
import z3
from pydv.univ import *
from pydv import univ as u
from pydv.vals import *
from pydv.front import Ext
from pydv.task import repo
from pydv.ex import St, isz, toz, toStr
from contracts.wiring import Obj, same, cls_of, tobool_
from contracts import wiring, c15
from z3 import And, Or, Not, Implies, If

I, B = z3.IntSort(), z3.BoolSort()
MT, L = 'hyperstate.msgpack_torch', 'hyperstate.lazy'
Arr, DType, Shp, Bts, Tens, PayDict = (z3.DeclareSort(n) for n in ('NdArray', 'DType', 'ArrShape', 'Bytes', 'Tensor', 'PayDict'))
DTYPE, SHAPE = z3.Function('dtype', Arr, DType), z3.Function('shape', Arr, Shp)
CBYTES = z3.Function('bytes.in.C.order', Arr, Bts)
DSTR, DTOF = z3.Function('dtype.str', DType, Str), z3.Function('dtype.of.str', Str, DType)
MK = z3.Function('array.of', Bts, DType, Shp, Arr)
NUMPY, FROMNP = z3.Function('tensor.numpy', Tens, Arr), z3.Function('from_numpy', Arr, Tens)
LISTED = z3.Function('as.list', Shp, Shp)
FALSE, TRUE = z3.BoolVal(False), z3.BoolVal(True)


def numpy(t, torch):
    ex = t.engine()
    st = St()
    a, d, s_, x = z3.Const('a', Arr), z3.Const('d', DType), z3.Const('s', Shp), z3.Const('t', Tens)
    st.assume(forall([d], DTOF(DSTR(d)) == d, DSTR(d)), forall([s_], LISTED(s_) == s_, LISTED(s_)),
              forall([a], MK(CBYTES(a), DTYPE(a), SHAPE(a)) == a, CBYTES(a)), forall([x], FROMNP(NUMPY(x)) == x, NUMPY(x)))
    t.trust('numpy: dtype(d.str) == d for plain dtypes; an array is determined by dtype, shape and its bytes in C order; ndarray(buffer=, dtype=, shape=) builds it')
    t.trust('msgpack restores maps, strings, bytes, numbers and lists as packed (tuples as lists)')
    ex.ext[f'global:{MT}:torch'] = Ext('torch') if torch else (lambda ex, s: None)
    kinds = {'numpy.ndarray': Arr, 'torch.Tensor': Tens}

    def isinst(ex, s, v, c):
        k = kinds.get(getattr(c, 'name', None)) if isinstance(c, Ext) else None
        return None if k is None else [(s, isz(v) and v.sort() == k)]
    ex.ext['isinstance'] = isinst

    def aattr(ex, s, v, nm):
        if nm == 'dtype':
            return [(s, DTYPE(v))]
        if nm == 'shape':
            return [(s, SHAPE(v))]
        if nm == 'tobytes':
            return [(s, Lam(nm, lambda ex, s, ar, k, n: tobytes(ex, s, [v] + list(ar), k, n)))]
        if nm == 'copy':
            return [(s, Lam(nm, lambda ex, s, ar, k, n: [(s, v)]))]
        return None

    def tobytes(ex, s, ar, k, n):
        if len(ar) > 1 or any(x != 'C' for x in k.values()):
            raise Unsupported('bytes in another order')
        return [(s, CBYTES(ar[0]))]
    ex.attrs['NdArray'] = aattr
    ex.attrs['DType'] = lambda ex, s, v, nm: [(s, DSTR(v))] if nm == 'str' else None
    ex.attrs['Tensor'] = lambda ex, s, v, nm: [(s, Lam(nm, lambda ex, s, ar, k, n: [(s, v if nm != 'numpy' else NUMPY(v))]))] if nm in ('cpu', 'numpy', 'detach') else None
    ex.ext['numpy.ndarray.tobytes'] = tobytes
    ex.ext['numpy.dtype'] = lambda ex, s, ar, k, n: [(s, DTOF(toStr(ar[0])))]

    def mk(ex, s, ar, k, n):
        e = dict(zip(['shape', 'dtype', 'buffer'], ar), **k)
        if set(e) != {'shape', 'dtype', 'buffer'}:
            raise Unsupported('numpy.ndarray(...)')
        dt = e['dtype']
        dt = DTOF(dt) if isz(dt) and dt.sort() == Str else dt
        sh = ex.deref(s, e['shape'])
        return [(s, MK(e['buffer'], dt, sh))]
    ex.ext['numpy.ndarray'] = mk
    ex.ext['numpy.copy'] = lambda ex, s, ar, k, n: [(s, ar[0])]
    ex.ext['numpy.array'] = lambda ex, s, ar, k, n: [(s, ar[0])] if isz(ar[0]) and ar[0].sort() == Arr else None
    ex.ext['torch.from_numpy'] = lambda ex, s, ar, k, n: [(s, FROMNP(ar[0]))]
    same_shape = lambda ex, s, ar, k, n: [(s, ar[0])]
    ex.ext['type.tuple'] = ex.ext['type.list'] = same_shape
    return ex, st


def codec(t):
    """decode(encode(array)) is the array, with and without torch; a tensor comes back as a tensor."""
    for torch, srt in ((False, Arr), (True, Arr), (True, Tens)):
        ex, st = numpy(t, torch)
        x = z3.Const('x', srt)
        what = f'{srt}{" (torch installed)" if torch else ""}'
        n = 0
        for s, r in ex.call_entry(st, repo().get(f'{MT}:encode'), [x], {}):
            r = ex.deref(s, r)
            h = s.heap[r.a] if isinstance(r, Ref) else None
            if not isinstance(h, HDict):
                t.prove(f'encode: {what} becomes a map', s.pc, FALSE)
                continue
            # what msgpack does to it
            d = ex.alloc(s, HDict((k, LISTED(v) if isz(v) and v.sort() == Shp else v) for k, v in h.items))
            for s2, r2 in ex.call_entry(s, repo().get(f'{MT}:decode'), [d], {}):
                n += 1
                t.prove(f'decode(encode): restores the {what}', s2.pc, same(ex.deref(s2, r2), x) if isz(r2) and r2.sort() == srt else FALSE)
        t.discharge(ex)
        t.prove(f'decode(encode): some normal exit for {what}', [], z3.BoolVal(n > 0))
        t.cover(st.pc)


def others(t):
    """Everything else is left as it is, by both."""
    for torch in (False, True):
        ex, st = numpy(t, torch)
        x = z3.Const('x', Obj)
        t.check_fn(ex, st, f'{MT}:encode', [x], lambda s, r: [('leaves other objects alone', same(r, x))], None)
        ex, st = numpy(t, torch)
        y = z3.Const('payload', PayDict)
        HASK = z3.Function('has.key', PayDict, Str, B)
        keys = lambda k: lit('bytes:' + k.decode() if isinstance(k, bytes) else k)
        ex.ext['contains'] = lambda ex, s, k, c: [(s, HASK(y, keys(k)))] if isz(c) and c.eq(y) and isinstance(k, (bytes, str)) else None

        def item(ex, s, o, k, *a):
            if not (isz(o) and o.eq(y)):
                return None
            return [(s1, z3.Const('item', Obj) if ok else Exc(bt('KeyError'))) for s1, ok in ex.split(s, HASK(y, keys(k)))]
        ex.ext['getitem'] = item
        st.assume(Not(HASK(y, keys(b'__tensor__'))))
        t.check_fn(ex, st, f'{MT}:decode', [y], lambda s, r: [('leaves other maps alone', same(r, y))], None)


PACK = z3.Function('packed', V, V)
SER = z3.Function('serialized', Obj, V)


def serializer(t):
    """LazySerializer.serialize: the blob of a field holds what the field's serializer returned."""
    ex = t.engine()
    st = St()
    value, isser, path = z3.Const('value', Obj), fresh('isser', B), fresh('path', Str)
    ser = cls_of('Serializable')
    ex.ext['isinstance'] = lambda ex, s, a, b: [(s, isser)] if isz(a) and a.eq(value) and b is ser else None
    shape = SMap(Str, SLeaf(V))
    m0 = shape.build([fresh('blobs', x) for x in shape.sorts()])
    st.assume(*m0.facts())
    blobs = ex.alloc(st, HMap(m0))
    self_ = ex.alloc(st, HObj(cls_of('LazySerializer'), dict(blobs=blobs)))

    def oattr(ex, s, v, nm):
        def f(ex, s, a, k, n):
            s2 = s.fork()
            return [(s, SER(v)), (s2, Exc(bt('Exception'), node=n, attrs={'by': 'serialize'}))]
        return [(s, Lam(nm, f))] if nm == 'serialize' else None
    ex.attrs['Obj'] = oattr

    def pack(ex, s, a, kw, node):
        h = kw.get('default')
        ex.oblige(s, 'encodes arrays while packing', z3.BoolVal(isinstance(h, FnVal) and h.qual == f'{MT}:encode'))
        ex.oblige(s, 'packs in the usual way', z3.BoolVal(set(kw) <= {'default', 'use_bin_type'} and kw.get('use_bin_type', True) is True))
        s2 = s.fork()
        return [(s, PACK(ex.to_V(s, a[0]))), (s2, Exc(bt('TypeError'), node=node, attrs={'by': 'serialize'}))]
    ex.ext['msgpack.packb'] = ex.ext['msgpack.dumps'] = pack
    name = c15.blobname(ex, st, path)
    k = fresh('k', Str)

    def ensures(s, r):
        r = ex.deref(s, r)
        h = s.heap[self_.a].attrs['blobs']
        m = s.heap[h.a].m
        return [('handles serializable fields', tobool_(r.items[1]) == isser), ('marks the field', Implies(isser, same(r.items[0], lit('<blob:msgpack>')))),
                ('stores the packed data under the name of the field', Implies(isser, And(m.has[name], m.at(name) == PACK(SER(value))))),
                ('changes no other blob', Implies(Or(Not(isser), k != name), And(m.has[k] == m0.has[k], Implies(m.has[k], m.at(k) == m0.at(k)))))]
    t.check_fn(ex, st, f'{L}:LazySerializer.serialize', [self_, value, path, fresh('namedtuples', B)], ensures, lambda s, x: [] if x.attrs.get('by') == 'serialize' else None)


def typed_dump(t):
    wiring.typed_dump(t, {'lazy'})


def deserializer(t):
    c15.deserializer(t)


def access(t):
    c15.get(t)


TASKS = ['codec', 'others', 'serializer', 'typed_dump', 'deserializer', 'access']

TECHNIQUE = ('contract-based deductive verification: encode and decode are executed symbolically one after the other (decode of encode is the array), '
             'LazySerializer, _typed_dump, LazyDeserializer and Lazy.__getattribute__ are proved to write, find and decode the same blob; z3 and cvc5')
NOTE = ('Assumed: numpy (dtype.str, tobytes, ndarray(buffer=...)), torch and msgpack by contract; a payload map with the four tensor keys is an array; '
        'str.replace is a function of its arguments, so equal paths give equal blob names')

"""Shared parts of the falsifiers: specifications of config classes as plain literals, generators for classes,
documents and values, and the reference meaning of loading a document ("build").

A type is a literal: "int" "float" "str" "bool" ("list", t) ("dict", k, t) ("tuple", t...) ("opt", t) ("lit", v...)
("enum", name, ((member, value)...)) ("union", cls...) ("cls", name, ((field, type, default)...), version)
default: None, or (document,) ; version: None or int.
A document is what the RON reader yields: dicts, lists, tuples, numbers, strings, bools, None."""
import dataclasses, enum, typing, os, sys, random

class Reject(Exception): pass

IDENT = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789")
def is_ident(s): return isinstance(s, str) and s != "" and not s[0].isdigit() and all(c in IDENT for c in s)

def ron(d):
    if d is None: return "None"
    if d is True: return "true"
    if d is False: return "false"
    if isinstance(d, (int, float)): return repr(d)
    if isinstance(d, str): return '"' + d.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(d, list): return "[" + ", ".join(ron(x) for x in d) + "]"
    if isinstance(d, tuple): return "(" + ", ".join(ron(x) for x in d) + ("," if len(d) == 1 else "") + ")"
    if isinstance(d, dict):
        name = d.get("!__name__", "")
        items = [(k, v) for k, v in d.items() if k != "!__name__"]
        if name: return name + "(" + ", ".join("%s: %s" % (k, ron(v)) for k, v in items) + ")"
        if items and all(is_ident(k) for k, _ in items): return "(" + ", ".join("%s: %s" % (k, ron(v)) for k, v in items) + ")"
        return "{" + ", ".join("%s: %s" % (ron(k), ron(v)) for k, v in items) + "}"
    raise ValueError(d)

class World:
    """Python types for the specs of one case."""
    def __init__(self, rules=None):
        self.made = {}; self.rules = rules or {}
    def ty(self, s):
        if isinstance(s, str): return {"int": int, "float": float, "str": str, "bool": bool}[s]
        k = s[0]
        if k == "list": return typing.List[self.ty(s[1])]
        if k == "dict": return typing.Dict[self.ty(s[1]), self.ty(s[2])]
        if k == "tuple": return typing.Tuple[tuple(self.ty(x) for x in s[1:])]
        if k == "opt": return typing.Optional[self.ty(s[1])]
        if k == "lit": return typing.Literal[tuple(s[1:])]
        if k == "union": return typing.Union[tuple(self.ty(x) for x in s[1:])]
        if k == "enum":
            if s not in self.made: self.made[s] = enum.Enum(s[1], list(s[2]))
            return self.made[s]
        if k == "cls":
            key = repr(s)
            if key not in self.made: self.made[key] = self.cls(s)
            return self.made[key]
        raise ValueError(s)
    def cls(self, s):
        from hyperstate import Versioned
        fields = []
        ns = {}
        for f in s[2]:
            name, t, default = f[:3]
            if default is None: fields.append((name, self.ty(t)))
            else:
                v = build(self, t, default[0])
                if isinstance(v, (list, dict)) or (len(default) > 1 and default[1] == "factory"):
                    fields.append((name, self.ty(t), dataclasses.field(default_factory=(lambda t=t, d=default[0]: build(self, t, d)))))
                else: fields.append((name, self.ty(t), dataclasses.field(default=v)))
        # fields without default first, as dataclasses require
        fields.sort(key=lambda f: len(f))
        bases = ()
        if s[3] is not None:
            bases = (Versioned,)
            ns["version"] = classmethod(lambda c, n=s[3]: n)
            if s[1] in self.rules:
                mk = self.rules[s[1]]
                ns["upgrade_rules"] = classmethod(lambda c: mk())
        return dataclasses.make_dataclass(s[1], fields, bases=bases, namespace=ns)

_worlds = {}
def world(s, rules=None):
    """The Python types for spec s, kept for the next case with the same spec."""
    key = repr(s)
    if key not in _worlds or rules:
        _worlds.clear(); _worlds[key] = World(rules)
    return _worlds[key]

def build(w, s, d, ignore_extra=False):
    """Reference meaning: the value that document d denotes at type s; absent fields get their defaults.
    Only exact documents are accepted here (no number or string conversions except int for float)."""
    if isinstance(s, str):
        if s == "int" and type(d) is int: return d
        if s == "float" and type(d) in (int, float): return float(d)
        if s == "str" and type(d) is str: return d
        if s == "bool" and type(d) is bool: return d
        raise Reject((s, d))
    k = s[0]
    if k == "opt": return None if d is None else build(w, s[1], d, ignore_extra)
    if k == "list":
        if type(d) is not list: raise Reject((s, d))
        return [build(w, s[1], x, ignore_extra) for x in d]
    if k == "tuple":
        if type(d) is not tuple or len(d) != len(s) - 1: raise Reject((s, d))
        return tuple(build(w, t, x, ignore_extra) for t, x in zip(s[1:], d))
    if k == "dict":
        if type(d) is not dict: raise Reject((s, d))
        return {q: build(w, s[2], x, ignore_extra) for q, x in d.items()}
    if k == "lit":
        for a in s[1:]:
            if type(a) is type(d) and a == d: return d
        raise Reject((s, d))
    if k == "enum":
        for n, v in s[2]:
            if type(v) is type(d) and v == d: return w.ty(s)[n]
        raise Reject((s, d))
    if k == "union":
        if type(d) is dict:
            for a in s[1:]:
                if d.get("!__name__") == a[1]: return build(w, a, d, ignore_extra)
        raise Reject((s, d))
    if k == "cls":
        if type(d) is not dict: raise Reject((s, d))
        cls = w.ty(s)
        kw = {}
        names = {f[0] for f in s[2]}
        for q in d:
            if q not in names and q != "!__name__" and not (q == "version" and s[3] is not None) and not ignore_extra: raise Reject(("unknown", q))
        for f in s[2]:
            name, t, default = f[:3]
            if name in d: kw[name] = build(w, t, d[name], ignore_extra)
            elif default is not None: kw[name] = build(w, t, default[0])
            elif not isinstance(t, str) and t[0] == "cls": kw[name] = build(w, t, {})
            else: raise Reject(("missing", name))
        return cls(**kw)
    raise ValueError(s)

def full(w, s, d):
    """The complete document for what d denotes (defaults written out)."""
    if isinstance(s, str): return float(d) if s == "float" else d
    k = s[0]
    if k == "opt": return None if d is None else full(w, s[1], d)
    if k == "list": return [full(w, s[1], x) for x in d]
    if k == "tuple": return tuple(full(w, t, x) for t, x in zip(s[1:], d))
    if k == "dict": return {q: full(w, s[2], x) for q, x in d.items()}
    if k in ("lit", "enum"): return d
    if k == "union":
        a = [a for a in s[1:] if a[1] == d["!__name__"]][0]
        return dict(full(w, a, d), **{"!__name__": a[1]})
    if k == "cls":
        out = {}
        for f in s[2]:
            name, t, default = f[:3]
            if name in d: out[name] = full(w, t, d[name])
            elif default is not None: out[name] = full(w, t, default[0])
            else: out[name] = full(w, t, {})
        return out
    raise ValueError(s)

def same(a, b):
    """Equal values of equal types, at every depth."""
    if type(a) is not type(b):
        # classes of the same case are shared; only exact types count
        return False
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict): return list(map(repr, sorted(a, key=repr))) == list(map(repr, sorted(b, key=repr))) and all(same(a[k], b[k]) for k in a)
    return a == b

# ---------------------------------------------------------------- generators
INTS = [0, 1, -1, 2, 3, 7, 10, 100, -5, 2**31, 2**53 + 1, -2**53 - 1, 2**62, 9223372036854775807, -9223372036854775808]
FLOATS = [0.0, 1.0, -1.0, 0.5, 0.1, -2.25, 1e-7, 1e300, 1e22, 3.0, 123456789.125, 2.5e-15, 1/3]
STRS = ["", "a", "abc", "x y", "a=b", "1.5", "7", "None", "true", "q\"r\\", "\u00e9", "lr", "A", "B", "-", "a.b", "(x: 1)", "step", "None()", "[1]", "#", "//x", "a@b", "x@y: 1"]
FIELDS = ["a", "b", "lr", "x_y", "name", "steps", "value", "opt", "d_model", "p", "q", "n", "type", "file", "path"]
LITS = ["small", "large", "gpt2", "no-ident", "x y", "1", "None", "a"]

class Gen:
    def __init__(self, rng, enums=True, unions=True, dicts=True, tuples=True, lists=True, versions=0.0, maxdepth=3, maxfields=4, defaults=0.6):
        self.r = rng; self.n = 0; self.enums = enums; self.unions = unions; self.dicts = dicts; self.tuples = tuples; self.lists = lists
        self.versions = versions; self.maxdepth = maxdepth; self.maxfields = maxfields; self.defaults = defaults
    def uid(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)
    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.7 or not self.enums: return r.choice(["int", "float", "str", "bool"])
        if k < 0.85:
            if r.random() < 0.7: return ("lit",) + tuple(r.sample(LITS, r.randint(1, 3)))
            if r.random() < 0.3: return ("lit",) + tuple(r.sample(["small", "a", "x y", 1, 2, 7], r.randint(2, 4)))
            return ("lit",) + tuple(r.sample([1, 2, 3, 5], r.randint(1, 3)))
        names = r.sample(["A", "B", "C", "small", "big"], r.randint(1, 3))
        if r.random() < 0.5: vals = r.sample(["A", "B", "C", "small", "big", "x y"], len(names))
        else: vals = r.sample([0, 1, 2, 3], len(names))
        return ("enum", self.uid("En"), tuple(zip(names, vals)))
    def type(self, depth=0):
        r = self.r
        if depth >= self.maxdepth or r.random() < 0.45: return self.leaf()
        opts = ["opt", "cls", "cls"]
        if self.lists: opts.append("list")
        if self.dicts: opts.append("dict")
        if self.tuples: opts.append("tuple")
        if self.unions: opts.append("union")
        k = r.choice(opts)
        if k == "opt":
            t = self.type(depth + 1)
            return t if not isinstance(t, str) and t[0] in ("opt", "union") else ("opt", t)
        if k == "list": return ("list", self.type(depth + 1))
        if k == "dict": return ("dict", r.choice(["str", "int"]), self.type(depth + 1))
        if k == "tuple": return ("tuple",) + tuple(self.type(depth + 1) for _ in range(r.randint(1, 3)))
        if k == "union": return ("union",) + tuple(self.cls(depth + 1) for _ in range(2))
        return self.cls(depth + 1)
    def cls(self, depth=0, version=None, nfields=None):
        r = self.r
        name = self.uid("Cls")
        fs = []
        for f in r.sample(FIELDS, nfields or r.randint(1, self.maxfields)):
            t = self.type(depth + 1)
            default = None
            if r.random() < self.defaults:
                d = self.doc(t, full=r.random() < 0.5)
                default = (d, "factory") if r.random() < 0.4 else (d,)
            fs.append((f, t, default))
        if version is None and depth > 0 and r.random() < self.versions: version = r.randint(0, 3)
        return ("cls", name, tuple(fs), version)
    def doc(self, t, full=True, drop=0.4, names=False):
        """A valid document of type t; with full=False, some fields that may be left out are left out."""
        r = self.r
        if isinstance(t, str):
            if t == "int": return r.choice(INTS) if r.random() < 0.6 else r.randint(-50, 50)
            if t == "float": return r.choice(FLOATS) if r.random() < 0.6 else round(r.uniform(-9, 9), 3)
            if t == "str": return r.choice(STRS)
            return r.random() < 0.5
        k = t[0]
        if k == "opt": return None if r.random() < 0.3 else self.doc(t[1], full, drop)
        if k == "list": return [self.doc(t[1], full, drop) for _ in range(r.choice([0, 1, 2, 3]))]
        if k == "dict":
            ks = r.sample(["a", "b", "k1", "x y", "z"], r.randint(0, 3)) if t[1] == "str" else r.sample([0, 1, 2, -3, 10], r.randint(0, 3))
            return {q: self.doc(t[2], full, drop) for q in ks}
        if k == "tuple": return tuple(self.doc(x, full, drop) for x in t[1:])
        if k == "lit": return r.choice(t[1:])
        if k == "enum": return r.choice(t[2])[1]
        if k == "union":
            a = r.choice(t[1:])
            return dict(self.doc(a, full, drop), **{"!__name__": a[1]})
        out = {}
        if t[3] is not None: out["version"] = t[3]
        fs = list(t[2]); r.shuffle(fs)
        for f in fs:
            if not full and r.random() < drop and can_omit(f): continue
            out[f[0]] = self.doc(f[1], full, drop)
        return out

def can_omit(f):
    return f[2] is not None or (not isinstance(f[1], str) and f[1][0] == "cls" and all(can_omit(g) for g in f[1][2]))

def subdocs(s, d, path=()):
    """(path, type, document) of every position of d that is reached through fields, elements and items."""
    yield path, s, d
    if isinstance(s, str) or d is None: return
    k = s[0]
    if type(d) is not dict(list=list, tuple=tuple, dict=dict, union=dict, cls=dict).get(k, type(d)): return
    if k == "tuple" and len(d) != len(s) - 1: return
    if k == "union" and d.get("!__name__") not in [a[1] for a in s[1:]]: return
    if k == "opt":
        for x in subdocs(s[1], d, path): yield x
    elif k == "list":
        for i, x in enumerate(d): 
            for y in subdocs(s[1], x, path + (i,)): yield y
    elif k == "tuple":
        for i, x in enumerate(d):
            for y in subdocs(s[i + 1], x, path + (i,)): yield y
    elif k == "dict":
        for q, x in d.items():
            if q == "!__name__": continue
            for y in subdocs(s[2], x, path + (q,)): yield y
    elif k == "union":
        a = [a for a in s[1:] if a[1] == d["!__name__"]][0]
        for y in subdocs(a, d, path): yield y
    elif k == "cls":
        for f in s[2]:
            if f[0] in d:
                for y in subdocs(f[1], d[f[0]], path + (f[0],)): yield y

def put(d, path, v):
    """A copy of document d with v at path."""
    if not path: return v
    if isinstance(d, dict):
        out = dict(d); out[path[0]] = put(d.get(path[0], {}), path[1:], v); return out
    out = list(d); out[path[0]] = put(out[path[0]], path[1:], v)
    return type(d)(out)

def mentions_versioned(s):
    if isinstance(s, str): return False
    if s[0] == "cls": return s[3] is not None or any(mentions_versioned(f[1]) for f in s[2])
    if s[0] in ("lit", "enum"): return False
    return any(mentions_versioned(x) for x in s[1:])

def outcome(fn):
    try: return ("ok", fn())
    except Exception as e: return ("raise", "%s: %s" % (type(e).__name__, str(e)[:300]))

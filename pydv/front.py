"""Reads the verified code from /repo's current working tree and resolves names in it."""
import ast
import os
from .vals import *

BUILTIN_TYPES = {'int', 'float', 'str', 'bool', 'list', 'dict', 'tuple', 'set', 'frozenset', 'bytes', 'type', 'object'}


class Ext:
    """A name from outside the repository (a module, function or class), identified by dotted name."""
    _all = {}

    def __new__(cls, name):
        if name not in cls._all:
            o = super().__new__(cls)
            o.name = name
            cls._all[name] = o
        return cls._all[name]

    def __repr__(self):
        return f'<ext {self.name}>'


class Module:
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src)
        self.defs = {}      # name -> ('fn'|'class'|'const'|'import'|'from', payload)
        self.cache = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = ('fn', s)
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ('class', s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('const', s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ('const', s.value)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.defs[a.asname] = ('import', a.name)
                    else:
                        self.defs[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.defs[a.asname or a.name] = ('from', (s.module or '', s.level, a.name))
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan_weak(h.body)
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan_weak(s.orelse)

    def _scan_weak(self, body):
        saved = dict(self.defs)
        self._scan(body)
        for k, v in saved.items():
            self.defs[k] = v


class Repo:
    def __init__(self, root, package='hyperstate'):
        self.root, self.package = root, package
        self.modules = {}
        for d, _, files in os.walk(os.path.join(root, package)):
            for f in files:
                if f.endswith('.py') and not f.startswith('test_'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    try:
                        self.modules[rel] = Module(rel, p, open(p).read())
                    except SyntaxError as e:
                        raise Unsupported(f'{p}: {e}')

    def is_pkg(self, name):
        return name == self.package or name.startswith(self.package + '.')

    def lookup(self, mod, name):
        """The value of a global name: FnVal, ClassVal, ModVal, Ext, or ('const', node, mod); None if not defined."""
        if name in mod.cache:
            return mod.cache[name]
        if name not in mod.defs:
            return None
        kind, p = mod.defs[name]
        if kind == 'fn':
            v = FnVal(p, mod, f'{mod.name}:{p.name}')
        elif kind == 'class':
            v = self.mkclass(p, mod, p.name)
        elif kind == 'const':
            v = ('const', p, mod)
        elif kind == 'import':
            v = ModVal(p) if self.is_pkg(p) else Ext(p)
        else:
            m, level, n = p
            if level:
                base = mod.name.split('.')
                if mod.path.endswith('__init__.py'):
                    base = base + ['']
                base = base[:len(base) - level]
                m = '.'.join(base + ([m] if m else []))
            if self.is_pkg(m):
                if m in self.modules and n in self.modules[m].defs:
                    v = self.lookup(self.modules[m], n)
                elif f'{m}.{n}' in self.modules:
                    v = ModVal(f'{m}.{n}')
                else:
                    raise Unsupported(f'cannot resolve {m}.{n}')
            else:
                v = self.ext_name(f'{m}.{n}')
        mod.cache[name] = v
        return v

    def ext_name(self, dotted):
        if dotted == 'abc.ABC':
            return bt('ABC')
        if dotted == 'typing.Generic':
            return bt('Generic')
        if dotted == 'enum.Enum':
            return bt('Enum')
        if dotted == 'enum.EnumMeta':
            return bt('EnumMeta')
        return Ext(dotted)

    def resolve_expr(self, e, mod):
        """Static resolution of a base-class expression."""
        if isinstance(e, ast.Name):
            v = self.lookup(mod, e.id)
            if v is None and e.id in BType._all:
                return bt(e.id)
            return v
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, mod)
            if isinstance(b, ModVal):
                if b.name in self.modules:
                    return self.lookup(self.modules[b.name], e.attr)
            if isinstance(b, Ext):
                return self.ext_name(f'{b.name}.{e.attr}')
            return None
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(e.value, mod)
        return None

    def mkclass(self, node, mod, qual):
        bases = [b for b in (self.resolve_expr(e, mod) for e in node.bases) if b is not None]
        c = ClassVal(node.name, node, mod, bases, f'{mod.name}:{qual}')
        for d in node.decorator_list:
            f = d.func if isinstance(d, ast.Call) else d
            r = self.resolve_expr(f, mod)
            if isinstance(r, Ext) and r.name == 'dataclasses.dataclass':
                c.isdataclass = True
        c.isenum = any(b is bt('Enum') for b in c.mro())
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'method'
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod', 'property'):
                        kind = d.id
                    if isinstance(d, ast.Attribute) and d.attr == 'setter':
                        kind = 'setter'
                name = s.name + '$set' if kind == 'setter' else s.name
                c.members[name] = FnVal(s, mod, f'{c.qual}.{s.name}' + ('$set' if kind == 'setter' else ''), cls=c, kind=kind)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                c.members[s.targets[0].id] = ('const', s.value, mod)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                default, factory = s.value, None
                if isinstance(s.value, ast.Call):
                    r = self.resolve_expr(s.value.func, mod)
                    if isinstance(r, Ext) and r.name == 'dataclasses.field':
                        default = None
                        for kw in s.value.keywords:
                            if kw.arg == 'default':
                                default = kw.value
                            if kw.arg == 'default_factory':
                                factory = kw.value
                c.fields.append((s.target.id, s.annotation, default, factory, mod))
                if s.value is not None and not c.isdataclass:
                    c.members[s.target.id] = ('const', s.value, mod)
        return c

    def get(self, qual):
        """FnVal for 'module:func', 'module:Class.method', 'module:func.<nested name>' etc."""
        m, _, rest = qual.partition(':')
        if m not in self.modules:
            raise Unsupported(f'module {m} not found')
        parts = rest.split('.')
        v = self.lookup(self.modules[m], parts[0])
        if v is None:
            raise Unsupported(f'{qual}: {parts[0]} not found')
        for p in parts[1:]:
            if isinstance(v, ClassVal):
                f, _ = v.find(p)
                if f is None:
                    raise Unsupported(f'{qual}: {p} not found')
                v = f
            else:
                raise Unsupported(f'cannot resolve {qual}')
        return v

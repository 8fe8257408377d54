"""Program index: every module, class, member, annotation and import of the package, resolved.

Only source text is read (``ast.parse``); nothing of the analysed package is imported.
"""
from __future__ import annotations

import ast
import hashlib
import os


class Member:
    """A function-like class member as seen from the class that defines it."""

    __slots__ = ("name", "kind", "node", "owner", "setter")

    def __init__(self, name, kind, node, owner):
        self.name = name
        self.kind = kind  # method, property, cached, static, class, abstract-*
        self.node = node
        self.owner = owner
        self.setter = None

    @property
    def abstract(self):
        return any(_deco_name(d) in ("abstractmethod", "abc.abstractmethod") for d in self.node.decorator_list)

    @property
    def where(self):
        return "%s:%d %s.%s" % (self.owner.module.rel, self.node.lineno, self.owner.name, self.name)


class Func:
    __slots__ = ("name", "node", "module", "owner", "kind")

    def __init__(self, name, node, module, owner=None, kind="function"):
        self.name = name
        self.node = node
        self.module = module
        self.owner = owner
        self.kind = kind

    @property
    def where(self):
        q = self.name if self.owner is None else "%s.%s" % (self.owner.name, self.name)
        return "%s:%d %s" % (self.module.rel, self.node.lineno, q)


class Class:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.base_exprs = [b for b in node.bases]
        self.bases = []  # resolved Class objects
        self.ext_bases = []  # dotted names of bases outside the package
        self.members = {}
        self.ann = {}
        self.consts = {}
        self.subclasses = []
        self.local = False

    @property
    def qual(self):
        return "%s.%s" % (self.module.name, self.name)

    def __repr__(self):
        return "<Class %s>" % self.qual

    def mro(self):
        out = []

        def linear(c):
            seqs = [linear(b) for b in c.bases] + [list(c.bases)]
            res = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
            return res

        out = linear(self)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None

    def find_ann(self, name):
        for c in self.mro():
            if name in c.ann:
                return c, c.ann[name]
        return None

    def all_subclasses(self):
        out, stack = [], list(self.subclasses)
        while stack:
            c = stack.pop()
            if c not in out:
                out.append(c)
                stack.extend(c.subclasses)
        return out

    def is_subclass(self, other):
        return other in self.mro()


class Module:
    def __init__(self, name, path, rel, is_pkg, tree, text):
        self.name = name
        self.path = path
        self.rel = rel
        self.is_pkg = is_pkg
        self.tree = tree
        self.text = text
        self.bind = {}

    def __repr__(self):
        return "<Module %s>" % self.name


def _deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return dotted(d)


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else "%s.%s" % (b, n.attr)
    return None


def member_kind(node):
    kind = "method"
    for d in node.decorator_list:
        n = _deco_name(d) or ""
        last = n.split(".")[-1]
        if last == "property":
            kind = "property"
        elif last in ("cached_property", "threaded_cached_property"):
            kind = "cached"
        elif last == "staticmethod":
            kind = "static"
        elif last == "classmethod":
            kind = "class"
        elif last == "setter":
            kind = "setter"
        elif last == "deleter":
            kind = "deleter"
    return kind


class Index:
    def __init__(self, root, package="jinete"):
        self.root = root
        self.package = package
        self.modules = {}
        self.errors = []
        base = os.path.join(root, package)
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                with open(path, encoding="utf-8") as fh:
                    text = fh.read()
                self.modules[name] = Module(name, path, rel, is_pkg, ast.parse(text, path), text)
        for m in self.modules.values():
            self._bind_module(m)
        self.classes = []
        for m in self.modules.values():
            for b in m.bind.values():
                if b[0] == "class":
                    self.classes.append(b[1])
        for c in self.classes:
            self._link(c)
        self._field_types = {}
        self._by_field = None

    def add_module(self, path, name):
        """A module outside the package (a reference): its names resolve, its classes are not indexed."""
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
        return self.add_text(name, text, path)

    def add_text(self, name, text, path="<rule>"):
        m = Module(name, path, os.path.basename(path), False, ast.parse(text, path), text)
        self.modules[name] = m
        self._bind_module(m)
        for b in m.bind.values():
            if b[0] == "class":
                for x in b[1].base_exprs:
                    d = dotted(x)
                    r = self.resolve_dotted(m, d) if d else None
                    if isinstance(r, Class) and r is not b[1]:
                        b[1].bases.append(r)
        return m

    # -- binding ------------------------------------------------------------------------------

    def _bind_module(self, m):
        self._bind_body(m, m.tree.body)

    def _bind_body(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.bind[a.asname] = ("import", a.name, None)
                    else:
                        m.bind[a.name.split(".")[0]] = ("import", a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = self.import_base(m, s)
                for a in s.names:
                    if a.name == "*":
                        m.bind.setdefault("*", ("star", []))[1].append(base)
                    else:
                        m.bind[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.ClassDef):
                m.bind[s.name] = ("class", self.make_class(m, s))
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.bind[s.name] = ("func", Func(s.name, s, m))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        m.bind[t.id] = ("const", s.value)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    m.bind[s.target.id] = ("const", s.value)
            elif isinstance(s, ast.If):
                self._bind_body(m, s.orelse)
                self._bind_body(m, s.body)
            elif isinstance(s, ast.Try):
                self._bind_body(m, s.body)

    def import_base(self, m, s):
        if s.level == 0:
            return s.module
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: len(parts) - (s.level - 1)]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)

    def make_class(self, m, node):
        c = Class(node.name, m, node)
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = member_kind(s)
                if kind in ("setter", "deleter"):
                    if kind == "setter" and s.name in c.members:
                        c.members[s.name].setter = s
                    continue
                c.members[s.name] = Member(s.name, kind, s, c)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.ann[s.target.id] = s.annotation
                if s.value is not None:
                    c.consts[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        v = s.value
                        if isinstance(v, ast.Name) and v.id in c.members:
                            c.members[t.id] = c.members[v.id]  # alias of a member
                            c.consts[t.id] = v
                            if t.id not in ("__hash__", "__eq__"):
                                del c.members[t.id]
                        elif (
                            isinstance(v, ast.Call)
                            and dotted(v.func) in ("property", "cached_property")
                            and v.args
                            and isinstance(v.args[0], ast.Lambda)
                        ):
                            f = ast.FunctionDef(
                                name=t.id,
                                args=v.args[0].args,
                                body=[ast.copy_location(ast.Return(value=v.args[0].body), v)],
                                decorator_list=[v.func],
                                returns=None,
                            )
                            ast.copy_location(f, v)
                            ast.fix_missing_locations(f)
                            c.members[t.id] = Member(
                                t.id, "property" if dotted(v.func) == "property" else "cached", f, c
                            )
                        else:
                            c.consts[t.id] = v
        return c

    def _link(self, c):
        for b in c.base_exprs:
            d = dotted(b)
            r = self.resolve_dotted(c.module, d) if d else None
            if isinstance(r, Class):
                c.bases.append(r)
                r.subclasses.append(c)
            elif r is not None and r[0] == "ext":
                c.ext_bases.append(r[1])
            elif d:
                c.ext_bases.append(d)

    # -- resolution ---------------------------------------------------------------------------

    def resolve(self, module, name, seen=()):
        """A module-level name: Class, Func, ('mod', name), ('ext', dotted), ('const', module, expr), None."""
        if (module.name, name) in seen:
            return None
        b = module.bind.get(name)
        if b is None:
            star = module.bind.get("*")
            if star:
                for base in star[1]:
                    mm = self.modules.get(base)
                    if mm is not None:
                        r = self.resolve(mm, name, seen + ((module.name, name),))
                        if r is not None:
                            return r
            sub = module.name + "." + name
            if sub in self.modules:
                return ("mod", sub)
            return None
        if b[0] in ("class", "func"):
            return b[1]
        if b[0] == "const":
            return ("const", module, b[1])
        return self.resolve_import(b[1], b[2], seen + ((module.name, name),))

    def resolve_import(self, base, attr, seen=()):
        m = self.modules.get(base)
        if attr is None:
            return ("mod", base) if m is not None else ("ext", base)
        if m is None:
            return ("ext", "%s.%s" % (base, attr))
        r = self.resolve(m, attr, seen)
        if r is None and base + "." + attr in self.modules:
            return ("mod", base + "." + attr)
        return r

    def resolve_dotted(self, module, d):
        parts = d.split(".")
        r = self.resolve(module, parts[0])
        for p in parts[1:]:
            if r is None:
                return None
            if isinstance(r, tuple) and r[0] == "mod":
                r = self.resolve(self.modules[r[1]], p)
            elif isinstance(r, tuple) and r[0] == "ext":
                r = ("ext", "%s.%s" % (r[1], p))
            else:
                return None
        return r

    def cls(self, name):
        """A class by simple name (unique in the package)."""
        found = [c for c in self.classes if c.name == name]
        if len(found) == 1:
            return found[0]
        return None

    def func(self, name):
        found = [
            b[1] for m in self.modules.values() for b in m.bind.values() if b[0] == "func" and b[1].name == name
        ]
        return found[0] if len(found) == 1 else None

    # -- types --------------------------------------------------------------------------------

    def type_of_ann(self, module, a):
        """Annotation to type: ('cls', C), ('list', t), ('set', t), ('dict', k, v), ('tuple', ...), 'num', ..."""
        if a is None:
            return None
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.type_of_ann(module, ast.parse(a.value, mode="eval").body)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            ts = [self.type_of_ann(module, x) for x in (a.left, a.right)]
            ts = [t for t in ts if t is not None]
            return ts[0] if len(ts) == 1 else None
        if isinstance(a, ast.Subscript):
            base = dotted(a.value) or ""
            base = base.split(".")[-1]
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if base == "Optional":
                return self.type_of_ann(module, args[0])
            if base == "Union":
                ts = [self.type_of_ann(module, x) for x in args if not (isinstance(x, ast.Constant) and x.value is None)]
                return ts[0] if len(set(map(repr, ts))) == 1 else None
            if base in ("Set", "FrozenSet", "set", "frozenset", "AbstractSet"):
                return ("set", self.type_of_ann(module, args[0]))
            if base in ("List", "list", "Sequence", "Iterable", "Iterator", "Generator", "Collection", "deque", "Deque"):
                return ("list", self.type_of_ann(module, args[0]))
            if base in ("Tuple", "tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return ("list", self.type_of_ann(module, args[0]))
                return ("tuple", tuple(self.type_of_ann(module, x) for x in args))
            if base in ("Dict", "dict", "Mapping", "DefaultDict", "MutableMapping"):
                return ("dict", self.type_of_ann(module, args[0]), self.type_of_ann(module, args[1]))
            if base in ("Type", "type"):
                return ("type", self.type_of_ann(module, args[0]))
            return None
        d = dotted(a)
        if d is None:
            return None
        if d == "float":
            return "num"
        if d == "int":
            return "int"
        if d in ("str", "bool"):
            return d
        if d in ("set", "frozenset", "Set"):
            return ("set", None)
        if d in ("list", "tuple", "List", "Tuple", "Sequence", "Iterable", "Iterator"):
            return ("list", None)
        if d in ("dict", "Dict"):
            return ("dict", None, None)
        r = self.resolve_dotted(module, d)
        if isinstance(r, Class):
            return ("cls", r)
        if isinstance(r, tuple) and r[0] == "ext":
            return ("ext", r[1])
        return None

    def field_type(self, cls, name):
        k = (cls, name)
        if k in self._field_types:
            return self._field_types[k]
        self._field_types[k] = None
        t = None
        f = cls.find_ann(name)
        if f is not None:
            t = self.type_of_ann(f[0].module, f[1])
        if t is None:
            for c in cls.mro():
                t = self._init_type(c, name)
                if t is not None:
                    break
        self._field_types[k] = t
        return t

    def _init_type(self, c, name):
        ms = [m for m in [c.members.get("__init__")] if m is not None]
        for m in ms:
            # and the methods it calls on itself
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    h = c.members.get(n.func.attr)
                    if h is not None and h.kind == "method" and h not in ms and len(ms) < 12:
                        ms.append(h)
        for m in ms:
            t = self._stored_type(c, m, name)
            if t is not None:
                return t
        return None

    def _stored_type(self, c, m, name):
        params = {}
        a = m.node.args
        ordered = a.posonlyargs + a.args
        for p in ordered + a.kwonlyargs:
            params[p.arg] = p.annotation
        if a.vararg is not None:
            params[a.vararg.arg] = "list"
        if a.kwarg is not None:
            params[a.kwarg.arg] = "dict"
        me = {ordered[0].arg} if ordered else set()
        pairs, local = [], {}
        for s in ast.walk(m.node):
            if isinstance(s, ast.Assign):
                for tgt in s.targets:
                    if isinstance(tgt, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(
                            tgt.elts) == len(s.value.elts):
                        pairs.extend((x, y, None) for x, y in zip(tgt.elts, s.value.elts))
                    else:
                        pairs.append((tgt, s.value, None))
            elif isinstance(s, ast.AnnAssign):
                pairs.append((s.target, s.value, s.annotation))
        for tgt, val, _ in pairs:
            if isinstance(tgt, ast.Name):
                local.setdefault(tgt.id, []).append(val)
                if isinstance(val, ast.Name) and val.id in me:
                    me.add(tgt.id)

        def of(val, deep=0):
            if deep > 4 or val is None:
                return None
            if isinstance(val, ast.Name):
                p = params.get(val.id)
                if p is None:
                    return of(local[val.id][0], deep + 1) if len(local.get(val.id, ())) == 1 else None
                if p == "list":
                    return ("list", None)
                if p == "dict":
                    return ("dict", None, None)
                return self.type_of_ann(c.module, p)
            if isinstance(val, ast.Call):
                d = dotted(val.func)
                r = self.resolve_dotted(c.module, d) if d else None
                if isinstance(r, Class):
                    return ("cls", r)
                if d in ("set", "list", "dict"):
                    return ("set", None) if d == "set" else ("list", None) if d == "list" else ("dict", None, None)
                if isinstance(r, tuple) and r[0] == "ext":
                    return ("ext", r[1])
                if d in ("tuple", "sorted"):
                    return ("list", None)
            return None

        for tgt, val, ann in pairs:
            if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id in me and (
                    tgt.attr == name):
                t = self.type_of_ann(c.module, ann) if ann is not None else of(val)
                if t is not None:
                    return t
        return None

    def kind_by_field(self, name):
        """The kind every class agrees on for an attribute called ``name``."""
        if self._by_field is None:
            self._by_field = {}
        if name in self._by_field:
            return self._by_field[name]
        ts = set()
        for c in self.classes:
            t = self.attr_type(c, name)
            if t is not None:
                ts.add(repr(t))
                last = t
        r = last if len(ts) == 1 else None
        self._by_field[name] = r
        return r

    def attr_type(self, cls, name):
        m = cls.find(name)
        if m is not None:
            if m.kind in ("property", "cached"):
                t = self.type_of_ann(m.owner.module, m.node.returns)
                return t
            return None
        return self.field_type(cls, name)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(n.encode())
            h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]

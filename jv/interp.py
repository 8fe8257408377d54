"""Whole-program value analysis: source -> normal forms.

Every function is evaluated once, abstractly, over terms (see ``terms``).  Branches are merged at
their join into decision trees, loops are closed into comprehensions / folds / witnesses, calls whose
callee is resolved by the class hierarchy are expanded, everything else stays an uninterpreted
symbol.  The result of a function is a *summary*: returned value, field writes, container contents,
ordered opaque events, exceptions.
"""
from __future__ import annotations

import ast
import sys

from . import terms as t
from .index import Class, Func, Index, dotted
from .library import Library
from .terms import (
    AND, EMPTY, FALSE, NONE, NOT, ONE, OR, TRUE, UNDEF, ZERO,
    T, as_bool, bool_atom, comp_of, concat, const, constrain, elem, fresh, ite, length, lift, mk, num, tup,
)

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The construct is outside what the analysis models."""


class State:
    __slots__ = ("env", "heap", "cont", "pc", "version")

    def __init__(self, env=None, heap=None, cont=None, pc=TRUE, version=0):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.cont = cont if cont is not None else {}
        self.pc = pc
        self.version = version

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.cont), self.pc, self.version)


class Exit:
    __slots__ = ("kind", "pc", "value", "state", "node")

    def __init__(self, kind, pc, value, state, node=None):
        self.kind = kind
        self.pc = pc
        self.value = value
        self.state = state
        self.node = node


class Frame:
    __slots__ = ("func", "cls", "self_", "module", "exits", "yield_key", "depth", "closure", "loops")

    def __init__(self, func, cls, self_, module, depth, closure=None):
        self.func = func
        self.cls = cls
        self.self_ = self_
        self.module = module
        self.exits = []
        self.yield_key = None
        self.depth = depth
        self.closure = closure
        self.loops = None


class Summary:
    def __init__(self):
        self.ret = None
        self.writes = {}
        self.conts = {}
        self.events = EMPTY
        self.inval = EMPTY
        self.qwrites = EMPTY
        self.raises = []
        self.state = None
        self.loops = []
        self.node = None
        self.where = ""
        self.self_ = None


MAX_DEPTH = 60
CUT = set()  # methods whose expansion stopped because they call themselves
EVENTS = mk("acc", "events")
INVAL = mk("acc", "inval")
QW = mk("acc", "qwrites")
ACCS = (EVENTS, INVAL, QW)

DRAWS = ("randint", "randrange", "random", "sample", "choice", "shuffle", "getrandbits", "uniform")
CONTAINER_KINDS = ("list", "set", "dict", "tuple")


def is_container_type(ty):
    return isinstance(ty, tuple) and ty[0] in CONTAINER_KINDS


class Engine(Library):
    def __init__(self, index, boundary=(), extra_classes=None):
        self.ix = index
        self.boundary = set(boundary)  # (class name, member)
        self.types = {}
        self.classes = {}
        self.funcs = {}
        self.closures = {}
        self.class_state = {}
        self.news = {}
        self.nid = 0
        self.callstack = []
        self.version = 0
        self.memo = {}
        self.consts = {}
        self.opaque_notes = []
        self.unroll = 0
        self.remembers = False  # cached properties keep their first value until it is forgotten
        self.generators = set()
        self.rngs = set()
        self.models = {}
        self.slices = {}
        self.loop_log = []
        self.log_loops = False
        self.assert_count = 0
        self.strict_prims = None  # set while evaluating a reference: forbid undeclared members
        self.inlined = set()
        self.guard_stack = []
        self.calls_seen = []
        self.pure_calls = True
        self.max_terms = 600000
        self.draw_sites = None
        self.max_seconds = 40
        self.facts = []  # number terms known to be >= 0
        for c in index.classes:
            self.classes[c.qual] = c
        self._install()

    # -- hooks for the term layer -------------------------------------------------------------

    nullable = frozenset()
    trace = ()

    def _install(self):
        self.nullable = set()
        if not isinstance(self.trace, list):
            self.trace = []
        t.kind_of[0] = self.kind_of
        t.distinct[0] = self.distinct
        t.class_relation[0] = self.class_relation
        t.is_int[0] = self.is_int
        t.on_fresh[0] = self.on_fresh
        t.nonnull[0] = self.nonnull
        t.sign_of[0] = self.sign_of

    def on_fresh(self, v, space):
        if space in self.nullable:
            self.nullable.add(v)
        ty = self.elem_type(space)
        if ty is not None:
            self.types[v] = ty

    def nonnull(self, x):
        # elements of collections are objects, except those of * parameters
        if x.h == "fv":
            ty = self.types.get(x)
            return ty is not None and x not in self.nullable
        if x.h == "elem":
            if x.a[0] in self.nullable:
                return False
            ty = self.type_of(x.a[0])
            return isinstance(ty, tuple) and ty[0] in ("list", "set")
        return False

    def class_relation(self, c, d):
        c, d = self.classes.get(c), self.classes.get(d)
        if c is None or d is None:
            return None
        if c.is_subclass(d):
            return True
        if d.is_subclass(c):
            return None
        # unrelated classes of a single-inheritance hierarchy
        if any(x.is_subclass(c) and x.is_subclass(d) for x in self.ix.classes):
            return None
        return False

    def is_int(self, x):
        if x.h == "const":
            return isinstance(x.a[0], int)
        if x.h == "len":
            return True
        if x.h == "sum":
            c = x.a[0]
            return c.h == "comp" and t.is_num_const(c.a[2]) and isinstance(c.a[2].a[0], int)
        if x.h in ("max", "min"):
            return all(self.is_int(y) or (y.h == "poly" and t.int_poly(y)) for y in x.a[0])
        if x.h in ("floordiv", "int"):
            return x.h == "int" or all(t.int_poly(y) for y in x.a)
        if x.h == "bv":
            return False
        return self.type_of(x) == "int"

    def sign_of(self, x):
        """-1, 0, 1 when the sign of the number x is known; 1 also stands for >= 0."""
        if t.is_num_const(x):
            return (x.a[0] > 0) - (x.a[0] < 0)
        if self.nonneg(x):
            return 1
        if self.nonneg(t.sub(t.num(-1), x)):
            return -1
        return None

    def nonneg(self, x):
        if t.is_num_const(x):
            return x.a[0] >= 0
        if x.h == "len":
            return True
        if x.h == "fv" and self.types.get(x) == "int" and self.types.get(("idx", x)):
            return True
        if self.nonneg_poly(x):
            return True
        for f in self.facts:
            if self.nonneg_poly(t.sub(x, f)):
                return True
        return False

    def nonneg_poly(self, x):
        if t.is_num_const(x):
            return x.a[0] >= 0
        d, c = t.poly_of(x)
        if d and c >= 0:
            return all(k > 0 and all(self.nonneg1(f) for f in m) for m, k in d.items())
        return False

    def nonneg1(self, f):
        return f.h == "len" or (f.h == "fv" and bool(self.types.get(("idx", f)))) or (
            f.h == "var" and bool(self.types.get(("idx", f)))
        )

    def kind_of(self, x):
        h = x.h
        if h == "const":
            v = x.a[0]
            if isinstance(v, bool):
                return "bool"
            if isinstance(v, (int, float)):
                return "num"
            if isinstance(v, str):
                return "str"
            return None
        if h in ("fmt", "join", "format", "str"):
            return "str"
        if h in t.NUM_HEADS or h in ("div", "floordiv", "mod", "int", "agg"):
            return "num"
        if h in ("tup", "comp", "concat", "slice", "range", "sorted", "reversed", "enumerate", "zip", "product",
                 "combinations", "permutations", "chain", "until"):
            return "seq"
        if h in ("set", "union", "diff", "inter"):
            return "set"
        if h in ("dictv", "dmerge", "dictset", "dictcomp"):
            return "seq"
        ty = self.type_of(x)
        if ty is None:
            return None
        if ty in ("num", "int"):
            return "num"
        if ty == "str":
            return "str"
        if ty == "bool":
            return "bool"
        if isinstance(ty, tuple):
            if ty[0] == "set":
                return "set"
            if ty[0] in ("list", "tuple", "dict"):
                return "seq"
            if ty[0] == "cls":
                return "obj"
        return None

    def type_of(self, x):
        h = x.h
        if h == "const":
            v = x.a[0]
            if isinstance(v, bool):
                return "bool"
            if isinstance(v, int):
                return "int"
            if isinstance(v, float):
                return "num"
            if isinstance(v, str):
                return "str"
            return None
        r = self.types.get(x)
        if r is not None:
            return r
        if h == "new":
            return self.news[x.a[0]]
        if h in ("field", "prop"):
            ty = self.type_of(x.a[0])
            if isinstance(ty, tuple) and ty[0] == "cls":
                return self.ix.attr_type(ty[1], x.a[1])
            if ty is None:
                return self.ix.kind_by_field(x.a[1])
            return None
        if h == "elem":
            ty = self.type_of(x.a[0])
            if isinstance(ty, tuple):
                if ty[0] == "dict":
                    return ty[2]
                if ty[0] == "tuple":
                    if t.is_num_const(x.a[1]) and 0 <= x.a[1].a[0] < len(ty[1]):
                        return ty[1][x.a[1].a[0]]
                    return None
            return self.elem_type(x.a[0])
        if h == "tupget":
            ty = self.type_of(x.a[0])
            if isinstance(ty, tuple) and ty[0] == "tuple" and x.a[1] < len(ty[1]):
                return ty[1][x.a[1]]
            return None
        if h in ("first", "last", "argbest"):
            return self.elem_type(x.a[0] if h != "argbest" else x.a[1])
        if h == "mcall":
            ty = self.type_of(x.a[0])
            if isinstance(ty, tuple) and ty[0] == "cls":
                m = ty[1].find(x.a[1])
                if m is not None:
                    return self.ix.type_of_ann(m.owner.module, m.node.returns)
            return None
        if h == "call":
            f = x.a[0]
            if f.h == "func":
                fn = self.funcs[f.a[0]]
                return self.ix.type_of_ann(fn.module, fn.node.returns)
            if f.h == "class":
                return ("cls", self.classes[f.a[0]])
            if f.h == "ext" and f.a[0] in ("time.time", "math.sqrt"):
                return "num"
            return None
        if h in ("obj",):
            c = self.classes.get(x.a[0])
            return ("cls", c, "exact") if c is not None else None
        if h in ("poly", "mono", "sum", "len"):
            return "int" if t.int_poly(x) else "num"
        if h in ("max", "min", "div", "agg"):
            return "num"
        if h in ("tup",):
            return ("tuple", tuple(self.type_of(y) for y in x.a[0]))
        if h in ("comp", "concat", "slice", "range", "sorted", "reversed", "permutations", "combinations", "chain",
                 "until", "islice", "lset", "removed"):
            return ("list", self.elem_type(x))
        if h in ("set", "union", "diff", "inter"):
            return ("set", self.elem_type(x))
        if h in ("dictv", "dmerge", "dictset", "dictcomp"):
            return ("dict", None, None)
        if h == "ite":
            ts = []
            for l in t.leaves(x):
                if l is NONE or l is UNDEF:
                    continue
                ts.append(self.type_of(l))
            if ts and all(a == ts[0] for a in ts):
                return ts[0]
            if ts and all(a in ("num", "int") for a in ts):
                return "num"
            if ts and all(isinstance(a, tuple) and a[0] == "cls" for a in ts):
                cs = [a[1] for a in ts]
                for c in cs[0].mro():
                    if all(d.is_subclass(c) for d in cs):
                        return ("cls", c)
            return None
        if h == "deepcopy":
            return self.type_of(x.a[0])
        if h in ("fmt", "join", "format"):
            return "str"
        if h in t.ATOM_HEADS:
            return "bool"
        return None

    def join_types(self, ts):
        if not ts:
            return None
        if all(a == ts[0] for a in ts):
            return ts[0]
        if all(isinstance(a, tuple) and a[0] == "cls" for a in ts):
            for c in ts[0][1].mro():
                if all(a[1].is_subclass(c) for a in ts):
                    return ("cls", c)
        return None

    def elem_type(self, s):
        h = s.h
        if h == "tup":
            return self.join_types([self.type_of(y) for y in s.a[0]])
        if h == "range":
            return "int"
        if h == "concat":
            return self.join_types([self.elem_type(p) for p in s.a[0] if p is not EMPTY])
        if h == "union":
            ts = [self.elem_type(p) for p in s.a[0]]
            return self.join_types([a for a in ts if a is not None])
        if h in ("slice", "sorted", "reversed", "set", "diff", "islice", "until", "lset", "removed"):
            return self.elem_type(s.a[0])
        if h == "comp":
            if t.bv_max(s):
                return None
            ps = t.parts_of(s)
            return self.type_of(ps[0].elem) if len(ps) == 1 else None
        if h == "chain":
            return self.type_of(s.a[0])
        if h in ("permutations", "combinations"):
            e = self.elem_type(s.a[0])
            return ("tuple", (e,) * s.a[1])
        if h == "zip":
            return ("tuple", tuple(self.elem_type(x) for x in s.a[0]))
        if h == "enumerate":
            return ("tuple", ("int", self.elem_type(s.a[0])))
        if h == "dictvals":
            ty = self.type_of(s.a[0])
            return ty[2] if isinstance(ty, tuple) and ty[0] == "dict" else None
        if h == "dictitems":
            ty = self.type_of(s.a[0])
            return ("tuple", (ty[1], ty[2])) if isinstance(ty, tuple) and ty[0] == "dict" else None
        if h == "dictkeys":
            ty = self.type_of(s.a[0])
            return ty[1] if isinstance(ty, tuple) and ty[0] == "dict" else None
        if h == "ite":
            ts = [self.elem_type(l) for l in t.leaves(s) if l is not EMPTY]
            return ts[0] if ts and all(a == ts[0] for a in ts) else None
        if h == "bv":
            return None
        ty = self.type_of(s)
        if isinstance(ty, tuple):
            if ty[0] in ("list", "set"):
                return ty[1]
            if ty[0] == "dict":
                return ty[1]
            if ty[0] == "tuple":
                return ty[1][0] if ty[1] and all(a == ty[1][0] for a in ty[1]) else None
        return None

    # -- fresh things -------------------------------------------------------------------------

    def new(self, ty):
        self.nid += 1
        n = mk("new", self.nid)
        self.news[self.nid] = ty
        return n

    def new_container(self, kind, content, st, ety=None):
        ty = {"list": ("list", ety), "set": ("set", ety), "dict": ("dict", None, None)}[kind]
        if ety is None and kind != "dict":
            ty = (kind, self.elem_type(content) if content.h != "ite" else None)
        n = self.new(ty)
        st.cont[n] = content
        self.touch(st)
        return n

    def touch(self, st):
        self.version += 1
        st.version = self.version

    def cls_term(self, c):
        self.classes[c.qual] = c
        return mk("class", c.qual)

    def func_term(self, f):
        q = "%s:%s" % (f.module.name, f.name)
        self.funcs[q] = f
        return mk("func", q)

    # -- state --------------------------------------------------------------------------------

    def merge(self, c, a, b):
        """Join of two states under condition c (either may be None)."""
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        r = State()
        r.pc = OR(a.pc, b.pc)
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            r.env[k] = x if x is y else self.pick(c, x, y)
        if a.heap is b.heap or a.heap == b.heap:
            r.heap = a.heap
        else:
            for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
                x, y = a.heap.get(k), b.heap.get(k)
                if x is None:
                    # an object made on the other branch only is never seen on this one
                    x = UNDEF if k[0].h == "new" and not self.made_in(a, k[0]) else self.read_field_st(a, k[0], k[1])
                if y is None:
                    y = UNDEF if k[0].h == "new" and not self.made_in(b, k[0]) else self.read_field_st(b, k[0], k[1])
                r.heap[k] = x if x is y else self.pick(c, x, y)
        if a.cont is b.cont or a.cont == b.cont:
            r.cont = a.cont
        else:
            for k in list(a.cont) + [k for k in b.cont if k not in a.cont]:
                x, y = a.cont.get(k), b.cont.get(k)
                if x is None:
                    x = EMPTY if k.h in ("acc", "new") else k
                if y is None:
                    y = EMPTY if k.h in ("acc", "new") else k
                r.cont[k] = x if x is y else self.pick(c, x, y)
        if a.version == b.version:
            r.version = a.version
        else:
            self.touch(r)
        return r

    def made_in(self, st, o):
        return o in st.cont or any(k[0] is o for k in st.heap)

    def pick(self, c, x, y):
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        if not isinstance(x, T) or not isinstance(y, T):
            return x
        return ite(c, x, y)

    def val(self, x, st):
        """Contents of a container reference."""
        if x.h == "ite":
            return ite(bool_atom(x.a[0]), self.val(x.a[1], st), self.val(x.a[2], st))
        c = st.cont.get(x)
        if c is not None:
            return c
        return x

    def read_field_st(self, st, o, f):
        r = mk("field", o, f)
        cond = []
        for (p, g), v in reversed(list(st.heap.items())):
            if g != f:
                continue
            if p is o:
                r = v
                break
            al = self.alias(p, o)
            if al is FALSE:
                continue
            cond.append((al, v))
        for al, v in reversed(cond):
            r = ite(al, v, r)
        return r

    def alias(self, p, o):
        if p is o:
            return TRUE
        if p.h == "new" and o.h == "new":
            return FALSE
        if p.h == "new" or o.h == "new":
            x = o if p.h == "new" else p
            if x.h == "var":
                return FALSE
            # a pre-existing object cannot be the fresh one unless read back through the heap
            return FALSE
        if p.h == "lpvar" and o.h == "lpvar":
            return FALSE  # known by name
        tp, to = self.type_of(p), self.type_of(o)
        if tp is not None and to is not None and tp != to:
            if isinstance(tp, tuple) and isinstance(to, tuple) and tp[0] == "cls" and to[0] == "cls":
                if not (tp[1].is_subclass(to[1]) or to[1].is_subclass(tp[1])):
                    return FALSE
            else:
                return FALSE
        # a linked list never links an object to itself
        if o.h == "field" and o.a[0] is p or p.h == "field" and p.a[0] is o:
            return FALSE
        if p.h == "elem" and o.h == "elem" and p.a[0] is o.a[0]:
            d = t.sub(p.a[1], o.a[1])
            if t.is_num_const(d):
                return TRUE if d.a[0] == 0 else FALSE
        return t.eq(p, o)

    # -- attribute access ---------------------------------------------------------------------

    def attr(self, o, name, st, fr):
        if o.h == "ite" and self.remembers:
            o = constrain(o, st.pc)
        if o.h == "ite":
            if self.remembers:  # reading may fill a cache: on its own branch only
                return self.branch_expr(bool_atom(o.a[0]), lambda s: self.attr(o.a[1], name, s, fr),
                                        lambda s: self.attr(o.a[2], name, s, fr), st)
            return ite(bool_atom(o.a[0]), self.attr(o.a[1], name, st, fr), self.attr(o.a[2], name, st, fr))
        if o is UNDEF or o is NONE:
            return UNDEF
        h = o.h
        if name == "__class__":
            return self.classof(o)
        if name == "__dict__":
            return mk("dictof", o)
        if h == "class":
            return self.class_attr(o, name, st, fr)
        if h == "super":
            return mk("bound", o, name)
        if h == "mod":
            r = self.ix.resolve(self.ix.modules[o.a[0]], name)
            return self.resolved(r, st, fr) if r is not None else mk("field", o, name)
        if h == "ext":
            if o.a[0] == "$logger":
                return mk("bound", o, name)
            return self.ext_const("%s.%s" % (o.a[0], name))
        if h == "lpvar" and (o, name) not in st.heap:
            if name in ("name", "lowBound", "upBound", "cat"):
                return o.a[("name", "lowBound", "upBound", "cat").index(name)]
            r = mk("field", o, name)
            if name == "varValue":
                self.types[r] = "num"
            return r
        if h == "classof":
            return mk("field", o, name)
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls":
            c = ty[1]
            exact = len(ty) > 2
            m = c.find(name)
            if m is not None:
                if m.kind in ("property", "cached"):
                    return self.prop(o, c, exact, m, st, fr)
                return mk("bound", o, name)
            hc = c.find_const(name)
            if hc is not None and (o, name) not in st.heap:
                if o.h == "enum" or not self.is_enum(c):
                    if self.ix.field_type(c, name) is None:
                        return self.const_expr(hc[0].module, hc[1], hc[0])
            if o.h == "enum" and name in ("value", "name"):
                if name == "name":
                    return const(o.a[1])
                hc = c.find_const(o.a[1])
                if hc is not None:
                    e = hc[1]
                    if isinstance(e, ast.Name) and e.id in hc[0].members:
                        return mk("cfunc", c.qual, e.id)
                    return self.const_expr(hc[0].module, e, hc[0])
            if h not in ("new",) and self.ix.attr_type(c, name) is None:
                # declared only in some subclasses: method of a subclass?
                subs = [s for s in c.all_subclasses() if name in s.members]
                if subs and all(s.members[name].kind in ("method", "static", "class") for s in subs):
                    return mk("bound", o, name)
            if self.unroll and h == "new" and exact and (o, name) not in st.heap and not name.startswith("__") \
                    and hc is None and self.ix.attr_type(c, name) is None and self.ix.field_type(c, name) is None \
                    and not any(x.ext_bases for x in c.mro()):
                raise Undecided("%s has no %s" % (c.name, name))
            return self.read_field_st(st, o, name)
        if is_container_type(ty) or h in t.SEQ_HEADS or h in ("dictv", "dmerge", "dictof", "fmt", "join"):
            return mk("bound", o, name)
        if ty == "str" or (h == "const" and isinstance(o.a[0], str)):
            return mk("bound", o, name)
        return self.read_field_st(st, o, name)

    def is_enum(self, c):
        return any("Enum" in b for x in c.mro() for b in x.ext_bases)

    def classof(self, o):
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls" and len(ty) > 2:
            return self.cls_term(ty[1])
        return mk("classof", o)

    def class_attr(self, o, name, st, fr):
        c = self.classes[o.a[0]]
        if name in ("__name__", "__qualname__"):
            return const(c.name)
        if self.is_enum(c):
            hc = c.find_const(name)
            if hc is not None:
                e = mk("enum", c.qual, name)
                self.types[e] = ("cls", c, "exact")
                return e
        m = c.find(name)
        if m is not None:
            return mk("cfunc", c.qual, name)
        hc = c.find_const(name)
        if hc is not None:
            return self.const_expr(hc[0].module, hc[1], hc[0])
        return mk("field", o, name)

    def overridden(self, c, m):
        return any(s.find(m.name) is not m for s in c.all_subclasses())

    def prop(self, o, c, exact, m, st, fr):
        # a value stored over the property (setter or cache write)
        if (o, m.name) in st.heap:
            return st.heap[(o, m.name)]
        if not exact and self.overridden(c, m):
            return mk("prop", o, m.name)
        if m.abstract:
            return mk("prop", o, m.name)
        if self.is_boundary(c, m.name):
            if self.remembers and m.kind == "cached" and o.h == "new":
                return self.remembered(o, c, m, st, fr, None)
            return self.symprop(o, m.name, st)
        if self.strict_prims is not None and not fr_is_spec_member(m):
            self.strict_prims.append("%s.%s" % (m.owner.name, m.name))
        key = (id(m.node), "p", o) if self.unroll and o.h == "new" else (id(m.node), "p")
        if len(self.callstack) > MAX_DEPTH or any(k == key for k, _ in self.callstack):
            return self.symprop(o, m.name, st)
        if self.remembers and m.kind == "cached" and o.h == "new":
            return self.remembered(o, c, m, st, fr, key)
        mk_ = (id(m.node), o, st.version, st.pc if self.unroll else None, len(self.boundary), len(self.callstack) and tuple(k for k, _ in self.callstack if k[:2] in self.recursive_keys()))
        hit = self.memo.get(mk_)
        if hit is not None:
            return hit
        v0 = st.version
        r = self.invoke(m.node, m.owner, o, m.owner.module, [("pos", o)], [], st, fr, key)
        if st.version == v0:
            self.memo[mk_] = r
        return r

    def remembered(self, o, c, m, st, fr, key):
        """A cached property of a fresh object: computed where it is not remembered yet."""
        def compute(s):
            if key is None:
                v = self.symprop(o, m.name, s)
            else:
                v = self.invoke(m.node, m.owner, o, m.owner.module, [("pos", o)], [], s, fr, key)
            s.heap = dict(s.heap)
            s.heap[(o, "@" + m.name)] = v
            self.touch(s)
            return v

        got = st.heap.get((o, "@" + m.name))
        if got is None:
            return compute(st)
        got = constrain(got, st.pc)
        gone = self.forgotten(got, o, m.name)
        if gone is FALSE:
            return got
        if gone is TRUE:
            return compute(st)
        return self.branch_expr(gone, compute, lambda s: constrain(got, s.pc), st)

    def forgotten(self, v, o, name):
        if v.h == "ite":
            return ite(bool_atom(v.a[0]), self.forgotten(v.a[1], o, name), self.forgotten(v.a[2], o, name))
        return TRUE if v is UNDEF or v.h == "field" and v.a[0] is o and v.a[1] == "@" + name else FALSE

    def recursive_keys(self):
        """Members that can reach themselves (their expansion depends on the call stack)."""
        r = getattr(self, "_rec_keys", None)
        if r is None:
            r = self._rec_keys = set()
            # coarse: any member whose body mentions its own name as attribute
            for c in list(self.classes.values()):
                for m in c.members.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and n.attr == m.name:
                            r.add((id(m.node), "p"))
                            r.add((id(m.node), "m"))
        return r

    def symprop(self, o, name, st):
        # the value depends on the heap: after relevant writes it is a different symbol
        return lift(lambda x: mk("prop", x, name), self.snapshot(o, st))

    def is_boundary(self, c, name):
        return any((x.name, name) in self.boundary for x in c.mro())

    # -- names --------------------------------------------------------------------------------

    def resolved(self, r, st, fr):
        if isinstance(r, Class):
            return self.cls_term(r)
        if isinstance(r, Func):
            return self.func_term(r)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return self.ext_const(EXT_ALIAS.get(r[1], r[1]))
        if r[0] == "const":
            return self.const_expr(r[1], r[2], None)
        raise Undecided("name")

    def const_expr(self, module, expr, cls):
        k = id(expr)
        if k in self.consts:
            return self.consts[k][1]
        d = dotted(expr.func) if isinstance(expr, ast.Call) else None
        if d and d.endswith("getLogger"):
            r = mk("ext", "$logger")
        else:
            f = Frame(None, cls, None, module, 0)
            st = State()
            try:
                r = self.ev(expr, f, st)
                r = self.reify(r, st)
            except Undecided:
                r = mk("opaque", "const", ast.dump(expr))
        self.consts[k] = (expr, r)
        return r

    def name(self, id_, st, fr):
        if id_ in st.env:
            return st.env[id_]
        c = fr.closure
        while c is not None:
            if id_ in c[0]:
                return c[0][id_]
            c = c[1]
        if id_ == "__debug__":
            return FALSE if self.unroll else TRUE  # P26: what only runs in debug mode changes nothing
        r = self.ix.resolve(fr.module, id_) if fr.module is not None else None
        if r is not None:
            return self.resolved(r, st, fr)
        if id_ == "__class__" and fr.cls is not None:
            return self.cls_term(fr.cls)
        if id_ in ("None",):
            return NONE
        return mk("builtin", id_)

    # -- function invocation ------------------------------------------------------------------

    def bind_args(self, a, pos, kws, st, fr, defaults_frame, skip_self=False):
        """Parameter environment.  pos: [('pos'|'star', term)], kws: [(name|None, term)]."""
        env = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for p, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[p] = d
        rest = []
        i = 0
        star_seen = None
        flat = []
        for k, v in pos:
            if k == "star":
                c = self.val(v, st)
                if c.h == "tup":
                    flat.extend(("pos", x) for x in c.a[0])
                else:
                    flat.append(("star", c))
            else:
                flat.append((k, v))
        for k, v in flat:
            if k == "pos" and star_seen is None and i < len(params):
                env[params[i]] = v
                i += 1
            else:
                if k == "star" and i < len(params):
                    star_seen = v
                rest.append((k, v))
        named = {}
        kwstars = []
        for n, v in kws:
            if n is None:
                d = self.val(v, st)
                if d.h == "dictv":
                    for kk, vv in d.a[0]:
                        named[kk.a[0]] = vv
                elif d.h == "dmerge":
                    for piece in d.a[0]:
                        if piece.h == "dictv":
                            for kk, vv in piece.a[0]:
                                named[kk.a[0]] = vv
                        else:
                            kwstars.append(piece)
                else:
                    kwstars.append(d)
            else:
                named[n] = v
        for p in params[i:] + kwonly:
            if p in named:
                env[p] = named.pop(p)
                continue
            d = defaults.get(p)
            dv = self.ev(d, defaults_frame, State(pc=st.pc)) if d is not None else UNDEF
            if d is not None and dv.h == "new":
                dv = mk("opaque", "mutable-default")
            if star_seen is not None and p in params and d is None and not kwstars and not any(q in named for q in params):
                # the call only succeeds when the sequence supplies every remaining parameter
                env[p] = elem(star_seen, num(params.index(p) - i))
            elif star_seen is not None and p in params:
                env[p] = mk("viastar", star_seen, p, dv)
            elif kwstars:
                env[p] = mk("kwget", tuple(kwstars), p, dv)
            else:
                env[p] = dv
        # the parameters consumed from ** dictionaries do not reach **kw of the callee
        if a.vararg is not None:
            seqs = []
            for k, v in rest:
                seqs.append(tup([v]) if k == "pos" else v)
            env[a.vararg.arg] = concat(seqs) if seqs else EMPTY
        if a.kwarg is not None:
            pieces = []
            taken = [p for p in params[i:] + kwonly]
            for d in kwstars:
                pieces.append(self.kwrest(d, taken))
            if named:
                pieces.append(mk("dictv", tuple((const(k), named[k]) for k in sorted(named))))
            env[a.kwarg.arg] = self.new_container("dict", self.dmerge(pieces), st)
        return env

    def kwrest(self, d, taken):
        if d.h == "kwrest":
            return mk("kwrest", d.a[0], tuple(sorted(set(d.a[1]) | set(taken))))
        if not taken:
            return d
        return mk("kwrest", d, tuple(sorted(set(taken))))

    def dmerge(self, pieces):
        out = []
        for p in pieces:
            for q in p.a[0] if p.h == "dmerge" else (p,):
                if q.h == "dictv" and not q.a[0]:
                    continue
                if out and out[-1].h == "dictv" and q.h == "dictv":
                    d = dict(out[-1].a[0])
                    d.update(dict(q.a[0]))
                    kept = mk("dictv", tuple(d.items()))
                    out[-1] = kept if self.unroll else t.by_key(kept)
                else:
                    out.append(q)
        if not out:
            return mk("dictv", ())
        if len(out) == 1:
            return out[0]
        return mk("dmerge", tuple(out))

    def invoke(self, node, cls, self_, module, pos, kws, st, fr, key, closure=None):
        """Expand a call: evaluates the callee's body on st (mutated in place)."""
        if len(self.callstack) > MAX_DEPTH:
            raise Undecided("depth")
        name = getattr(node, "name", None)
        if self.models and cls is not None and (cls.name, name) in self.models and cls.members.get(name) is not None \
                and cls.members[name].node is node:
            # the law says what this member does
            node, module = self.models[(cls.name, name)]
        if cls is None and node in self.models:
            node, module = self.models[node]
        if self_ is not None and cls is not None and ("=" + cls.name, name) in self.boundary:
            m = cls.members.get(name)
            if m is not None and m.node is node and m.kind == "method":
                # a boundary at this very definition, however it is reached
                return self.symcall(self_, cls, m, name, pos[1:], kws, fr, st, False)
        f = Frame(node, cls, self_, module, len(self.callstack) + 1, closure)
        dfr = Frame(None, cls, None, module, len(self.callstack) + 1, closure)
        env = self.bind_args(node.args, pos, kws, st, fr, dfr)
        ps = node.args.posonlyargs + node.args.args + node.args.kwonlyargs
        for p in ps:
            v = env.get(p.arg)
            if isinstance(v, T) and v.h in ("var", "kwget", "viastar", "field", "fv", "call") and self.type_of(v) is None:
                ty = self.ix.type_of_ann(module, p.annotation) if p.annotation is not None else None
                if ty is not None and v.h != "field":
                    self.types[v] = ty
        self.inlined.add((module.rel if module else "?", getattr(node, "name", "<lambda>"), node.lineno))
        saved_env, saved_pc = st.env, st.pc
        st.env, st.pc = env, saved_pc
        self.callstack.append((key, node))
        try:
            if isinstance(node, ast.Lambda):
                r = self.ev(node.body, f, st)
                return r
            return self.run_body(node, f, st, fr, saved_pc)
        finally:
            self.callstack.pop()
            st.env = saved_env

    def run_body(self, node, f, st, caller, pc0):
        gen = is_generator(node)
        if gen:
            f.yield_key = self.new(("list", None))
            self.generators.add(f.yield_key)
            st.cont[f.yield_key] = EMPTY
            self.touch(st)
        end = self.block(node.body, f, st)
        exits = list(f.exits)
        rets = []
        for e in exits:
            if e.kind == "return":
                rets.append(e)
            elif e.kind == "raise" and caller is not None:
                caller.exits.append(e)
        if end is not None:
            rets.append(Exit("return", end.pc, NONE, end))
        if not rets:
            # never returns normally
            st.pc = FALSE
            return UNDEF
        # join the return states
        acc = rets[-1]
        s, v = acc.state, acc.value
        for e in reversed(rets[:-1]):
            c = constrain(e.pc, pc0)
            s = self.merge(c, e.state, s)
            v = self.pick(c, e.value, v)
        st.heap, st.cont, st.version = s.heap, s.cont, s.version
        npc = FALSE
        for e in rets:
            npc = OR(npc, e.pc)
        st.pc = npc
        if gen:
            v = f.yield_key if self.unroll else self.val(f.yield_key, st)
        return v

    # -- statements ---------------------------------------------------------------------------

    def block(self, body, fr, st):
        """Execute statements; returns the fall-through state or None."""
        for s in body:
            if st is None or st.pc is FALSE:
                return None
            st = self.stmt(s, fr, st)
        if st is not None and st.pc is FALSE:
            return None
        return st

    def stmt(self, s, fr, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Undecided("statement %s" % type(s).__name__)
        return m(s, fr, st)

    def s_Pass(self, s, fr, st):
        return st

    def s_Global(self, s, fr, st):
        return st

    def s_Nonlocal(self, s, fr, st):
        raise Undecided("nonlocal")

    def s_Assert(self, s, fr, st):
        self.assert_count += 1
        if self.remembers:
            self.ev(s.test, fr, st)  # what it asks for is remembered
        return st

    def s_Expr(self, s, fr, st):
        v = s.value
        if isinstance(v, ast.Constant):
            return st
        if self.is_logging(v, fr, st):
            return st
        if isinstance(v, ast.Call):
            self.ev_call(v, fr, st, discard=True)
            return st
        self.ev(v, fr, st)
        return st

    def is_logging(self, v, fr, st):
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name):
            n = v.func.value.id
            if n not in st.env and v.func.attr in ("debug", "info", "warning", "error", "exception", "log", "critical"):
                r = self.name(n, st, fr)
                return r.h == "ext" and r.a[0] == "$logger"
        return False

    def s_Import(self, s, fr, st):
        for a in s.names:
            r = self.ix.resolve_import(a.name if a.asname else a.name.split(".")[0], None)
            st.env[a.asname or a.name.split(".")[0]] = self.resolved(r, st, fr)
        return st

    def s_ImportFrom(self, s, fr, st):
        base = self.ix.import_base(fr.module, s)
        for a in s.names:
            r = self.ix.resolve_import(base, a.name)
            if r is None:
                st.env[a.asname or a.name] = mk("opaque", "import", a.name)
            else:
                st.env[a.asname or a.name] = self.resolved(r, st, fr)
        return st

    def s_Return(self, s, fr, st):
        v = NONE if s.value is None else self.ev(s.value, fr, st)
        if st.pc is not FALSE:
            fr.exits.append(Exit("return", st.pc, v, st, s))
        return None

    def s_Raise(self, s, fr, st):
        v = NONE if s.exc is None else self.ev(s.exc, fr, st)
        fr.exits.append(Exit("raise", st.pc, self.reify(v, st), st, s))
        return None

    def s_Break(self, s, fr, st):
        fr.exits.append(Exit("break", st.pc, NONE, st, s))
        return None

    def s_Continue(self, s, fr, st):
        fr.exits.append(Exit("continue", st.pc, NONE, st, s))
        return None

    def s_Delete(self, s, fr, st):
        for tg in s.targets:
            if isinstance(tg, ast.Subscript):
                o = self.ev(tg.value, fr, st)
                k = self.ev(tg.slice, fr, st) if not isinstance(tg.slice, ast.Slice) else None
                if o.h == "dictof" and k is not None:
                    self.invalidate(o.a[0], k, st)
                    continue
                if k is None:
                    lo = self.ev(tg.slice.lower, fr, st) if tg.slice.lower else ZERO
                    hi = self.ev(tg.slice.upper, fr, st) if tg.slice.upper else NONE
                    c = self.val(o, st)
                    hi2 = length(c) if hi is NONE else t.norm_index(c, hi)
                    self.set_cont(o, concat([t.slice_(c, ZERO, lo), t.slice_(c, hi2, NONE)]), st)
                    continue
                self.container_call(o, "pop", [k], {}, fr, st)
            elif isinstance(tg, ast.Name):
                st.env.pop(tg.id, None)
            elif isinstance(tg, ast.Attribute):
                o = self.ev(tg.value, fr, st)
                ty = self.type_of(o)
                m = ty[1].find(tg.attr) if isinstance(ty, tuple) and ty[0] == "cls" else None
                if m is not None and m.kind == "cached":
                    self.invalidate(o, const(tg.attr), st)
                else:
                    self.event(mk("del", o, tg.attr), st)
            else:
                raise Undecided("del")
        return st

    def invalidate(self, o, key, st):
        keys = key.a[0] if key.h == "tup" else (key,)
        if self.remembers and o.h == "ite":
            c = bool_atom(o.a[0])
            self.branch_expr(c, lambda s: self.invalidate(o.a[1], key, s) or NONE, lambda s: self.invalidate(o.a[2], key, s) or NONE, st)
            return
        if self.remembers and o.h == "new":
            st.heap = dict(st.heap)
            for k in keys:
                if k.h != "const":
                    raise Undecided("forgets what is not spelled out")
                for f in [f for q, f in st.heap if q is o and f.startswith("@")] if k.a[0] == "*" else ["@%s" % k.a[0]]:
                    st.heap.pop((o, f), None)
            self.touch(st)
            return
        if self.remembers and any(y.h == "new" for y in t.subterms(o)):
            raise Undecided("forgets on an object that is not identified")
        cur = st.cont.get(INVAL, EMPTY)
        for k in keys:
            cur = concat([cur, tup([mk("inval", o, k)])])
        st.cont[INVAL] = cur
        # a cache write performed earlier is gone
        self.touch(st)

    def event(self, ev, st):
        self.trace.append(("event", ev, st.pc))
        st.cont[EVENTS] = concat([st.cont.get(EVENTS, EMPTY), tup([ev])])
        self.touch(st)

    def s_Assign(self, s, fr, st):
        v = self.ev(s.value, fr, st)
        for tg in s.targets:
            self.assign(tg, v, fr, st)
        return st

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            v = self.ev(s.value, fr, st)
            ty = self.ix.type_of_ann(fr.module, s.annotation)
            if ty is not None and v.h == "new" and self.news[v.a[0]][0] == ty[0]:
                self.news[v.a[0]] = ty
            self.assign(s.target, v, fr, st)
        return st

    def s_AugAssign(self, s, fr, st):
        tg = s.target
        cur = self.ev(load(tg), fr, st)
        v = self.ev(s.value, fr, st)
        ty = self.type_of(cur)
        if isinstance(ty, tuple) and ty[0] in ("list", "set", "dict") and (
            cur.h == "new" or (cur.h in ("field", "elem", "var") and ty[0] != "tuple")
        ):
            op = type(s.op).__name__
            c = self.val(cur, st)
            w = self.val(v, st)
            if op == "Add":
                n = concat([c, w])
            elif op == "BitOr":
                n = t.union([c, w]) if ty[0] != "dict" else self.dmerge([c, w])
            elif op == "Sub":
                n = t.diff(c, w)
            elif op == "BitAnd":
                n = t.inter(c, w)
            else:
                raise Undecided("augassign")
            self.set_cont(cur, n, st)
            # `self.f -= x` also stores the same container back
            return st
        name = "__i%s__" % type(s.op).__name__.lower()
        if isinstance(ty, tuple) and ty[0] == "cls" and ty[1].find(name) is not None:
            r = self.call(mk("bound", cur, name), [("pos", v)], [], fr, st)
        else:
            r = self.binop(type(s.op).__name__, cur, v, st, fr)
        self.assign(tg, r, fr, st)
        return st

    def set_cont(self, c, content, st):
        if c.h == "ite":
            a = bool_atom(c.a[0])
            for sub, cond in ((c.a[1], a), (c.a[2], NOT(a))):
                old = self.val(sub, st)
                self.set_cont(sub, ite(cond, content, old), st)
            return
        st.cont[c] = content
        self.touch(st)

    def assign(self, tg, v, fr, st):
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            c = self.val(v, st)
            stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(tg.elts) - i - 1
                n = length(c)
                for k, e in enumerate(tg.elts):
                    if k < i:
                        self.assign(e, self.item(c, num(k), st), fr, st)
                    elif k == i:
                        self.assign(e.value, t.slice_(c, num(i), t.sub(n, num(after))), fr, st)
                    else:
                        self.assign(e, self.item(c, t.sub(n, num(len(tg.elts) - k)), st), fr, st)
                return
            for k, e in enumerate(tg.elts):
                self.assign(e, lift(lambda x, k=k: elem(x, num(k)), c), fr, st)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr, st)
            self.store_attr(o, tg.attr, v, fr, st)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr, st)
            self.store_item(o, tg.slice, v, fr, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, fr, st)
        else:
            raise Undecided("assign target")

    def store_attr(self, o, name, v, fr, st):
        if o.h == "ite":
            a = bool_atom(o.a[0])
            for sub, cond in ((o.a[1], a), (o.a[2], NOT(a))):
                if sub is NONE or sub is UNDEF:
                    continue
                s2 = st.copy()
                s2.pc = AND(st.pc, cond)
                self.store_attr(sub, name, v, fr, s2)
                m = self.merge(cond, s2, st)
                st.heap, st.cont, st.version = m.heap, m.cont, m.version
            return
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            name = "_%s%s" % (fr.cls.name.lstrip("_"), name)
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls":
            m = ty[1].find(name)
            if m is not None and m.kind == "property" and m.setter is not None:
                self.invoke(
                    m.setter, m.owner, o, m.owner.module, [("pos", o), ("pos", v)], [], st, fr, (id(m.setter), "m")
                )
                return
        k = (o, name)
        if k in st.heap:
            st.heap = dict(st.heap)
            del st.heap[k]
        else:
            st.heap = dict(st.heap)
        st.heap[k] = v
        self.touch(st)

    def store_item(self, o, sl, v, fr, st):
        if isinstance(sl, ast.Slice):
            c = self.val(o, st)
            lo = self.ev(sl.lower, fr, st) if sl.lower else ZERO
            hi = self.ev(sl.upper, fr, st) if sl.upper else NONE
            if sl.step is not None:
                raise Undecided("slice step store")
            if hi is NONE:
                hi = length(c)
            self.set_cont(o, concat([t.slice_(c, ZERO, lo), self.val(v, st), t.slice_(c, hi, NONE)]), st)
            return
        k = self.ev(sl, fr, st)
        if o.h == "dictof":
            self.store_attr(o.a[0], k.a[0], v, fr, st) if k.h == "const" else self.event(mk("setitem", o, k, v), st)
            return
        c = self.val(o, st)
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "dict" or c.h in ("dictv", "dmerge", "dictset"):
            self.set_cont(o, self.dict_set(c, k, v), st)
            return
        if isinstance(ty, tuple) and ty[0] == "list" or c.h in ("tup", "concat"):
            k = t.norm_index(c, k)
            self.set_cont(o, self.list_set(c, k, v), st)
            return
        self.event(mk("setitem", o, k, v), st)

    def list_set(self, c, k, v):
        if c.h == "tup" and t.is_num_const(k) and 0 <= k.a[0] < len(c.a[0]):
            items = list(c.a[0])
            items[k.a[0]] = v
            return tup(items)
        return mk("lset", c, k, v) if c.h != "ite" else ite(
            bool_atom(c.a[0]), self.list_set(c.a[1], k, v), self.list_set(c.a[2], k, v)
        )

    def dict_set(self, d, k, v):
        if d.h == "ite":
            return ite(bool_atom(d.a[0]), self.dict_set(d.a[1], k, v), self.dict_set(d.a[2], k, v))
        if t.ground(k):
            return self.dmerge([d, mk("dictv", ((k, v),))])
        if self.unroll and k.h == "ite":
            q = bool_atom(k.a[0])
            return ite(q, self.dict_set(d, k.a[1], t.constrain(v, q)), self.dict_set(d, k.a[2], t.constrain(v, NOT(q))))
        if self.unroll and k.h == "new" and d.h == "dictv" and all(q is k or t.eq(q, k) is FALSE for q, _ in d.a[0]):
            return mk("dictv", tuple(dict(list(d.a[0]) + [(k, v)]).items()))
        return mk("dictset", d, k, v)

    def s_If(self, s, fr, st):
        c = self.truth(self.ev(s.test, fr, st), st, fr)
        if st.pc is FALSE:
            return None
        c = self.strip_cache_tests(constrain(c, st.pc))
        if c is TRUE:
            return self.block(s.body, fr, st)
        if c is FALSE:
            return self.block(s.orelse, fr, st)
        a = st.copy()
        b = st
        a.pc = AND(st.pc, c)
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        pc0 = st.pc
        ra = self.block(s.body, fr, a) if a.pc is not FALSE else None
        rb = self.block(s.orelse, fr, b) if b.pc is not FALSE else None
        if ra is None or rb is None:
            return rb if ra is None else ra
        return self.merge(c, ra, rb)

    def strip_cache_tests(self, c):
        """`if "k" in self.__dict__: del ...` guards only the absence of the key."""
        for a in list(t.tree_atoms(c)):
            if a.h == "in" and a.a[1].h == "dictof":
                c = t.restrict(c, a, True)
        return c

    def s_With(self, s, fr, st):
        for it_ in s.items:
            v = self.ev(it_.context_expr, fr, st)
            handle = v.h == "handle"
            if not handle:
                self.event(mk("enter", self.reify(v, st)), st)
            if it_.optional_vars is not None:
                self.assign(it_.optional_vars, v, fr, st)
        r = self.block(s.body, fr, st)
        if r is not None and not handle:
            self.event(mk("exit", num(0)), r)
        return r

    def s_Try(self, s, fr, st):
        # (a) cache-miss idiom: try: read d[k] except KeyError: fill
        # (b) anything else: handlers are guarded by an opaque condition
        base = st.copy()
        n0 = len(fr.exits)
        guards = []
        self.guard_stack.append(guards)
        try:
            body = self.block(s.body, fr, st)
        finally:
            self.guard_stack.pop()
        names = []
        for h in s.handlers:
            d = dotted(h.type) if h.type is not None else "BaseException"
            if isinstance(h.type, ast.Tuple):
                d = "|".join(dotted(e) or "?" for e in h.type.elts)
            names.append(d or "?")
        if s.handlers and all(isinstance(x, ast.Pass) for h in s.handlers for x in h.body) and len(s.handlers) == 1 and not s.orelse:
            if names[0] in ("KeyError", "AttributeError"):
                if s.finalbody:
                    body = self.block(s.finalbody, fr, body)
                return body
        ok = TRUE
        kinds = {"KeyError": ("KeyError", "LookupError"), "ValueError": ("ValueError",)}
        keyed = [g for k, g in guards if g is not None and any(w in x for x in names for w in kinds[k])]
        if s.handlers and keyed:
            for g in keyed:
                ok = AND(ok, g)
        elif s.handlers:
            self.version += 1
            ok = bool_atom(mk("bool", "noraise", num(self.version)))
        if s.orelse and body is not None:
            body = self.block(s.orelse, fr, body)
        if not s.handlers:
            if s.finalbody and body is not None:
                body = self.block(s.finalbody, fr, body)
            return body
        # exits taken by the body hold only when nothing was raised
        for e in fr.exits[n0:]:
            e.pc = AND(e.pc, ok)
        if body is not None:
            body.pc = AND(body.pc, ok)
        res = body
        h = s.handlers[0]
        if len(s.handlers) > 1:
            raise Undecided("several handlers")
        hs = base
        hs.pc = AND(base.pc, NOT(ok))
        if h.name:
            hs.env[h.name] = mk("opaque", "exc")
        hr = self.block(h.body, fr, hs) if hs.pc is not FALSE else None
        if res is None or res.pc is FALSE:
            out = hr
        elif hr is None:
            out = res
        else:
            out = self.merge(ok, res, hr)
        if s.finalbody and out is not None:
            out = self.block(s.finalbody, fr, out)
        return out

    def s_FunctionDef(self, s, fr, st):
        st.env[s.name] = self.closure(s, fr, st)
        return st

    def s_ClassDef(self, s, fr, st):
        c = self.ix.make_class(fr.module, s)
        c.local = True
        for b in s.bases:
            v = self.ev(b, fr, st)
            if v.h == "class":
                c.bases.append(self.classes[v.a[0]])
            else:
                c.ext_bases.append(v.key)
                c.dyn_bases = getattr(c, "dyn_bases", []) + [v]
        term = mk("localclass", len(self.closures), s.name)
        self.closures[term] = (c, dict(st.env), fr)
        self.class_state[term] = (dict(st.heap), dict(st.cont))
        st.env[s.name] = term
        return st

    # -- loops --------------------------------------------------------------------------------

    def uncounted(self, s, fr, st):
        """``for i, x in enumerate(y)`` with i never looked at is ``for x in y``."""
        it, tg = s.iter, s.target
        while (
            isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args
            and not any(isinstance(a, ast.Starred) for a in it.args)
            and isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and isinstance(tg.elts[0], ast.Name)
            and fr.func is not None and not fr.closure
            and self.ev(it.func, fr, st).h == "builtin"
            and not any(isinstance(n, ast.Name) and n.id == tg.elts[0].id and not isinstance(n.ctx, ast.Store)
                        or isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fr.func))
        ):
            it, tg = it.args[0], tg.elts[1]
        return it, tg

    def s_For(self, s, fr, st):
        iter_, target = self.uncounted(s, fr, st)
        it_ = self.ev(iter_, fr, st)
        if st.pc is FALSE:
            return None

        def body(x, state):
            self.assign(target, x, fr, state)
            return self.block(s.body, fr, state)

        if self.unroll and not s.orelse:
            nx = self.stepper(it_, fr, st)
            if nx is not None:
                return self.unroll_next(nx, body, fr, st)

        names = assigned(s.body) | target_names(target)
        r = self.iterate(self.seq(it_, st, fr), body, names, fr, st, s)
        if s.orelse:
            if any(True for _ in [x for x in ast.walk(s) if isinstance(x, ast.Break)]):
                raise Undecided("for-else")
            r = self.block(s.orelse, fr, r) if r is not None else None
        return r

    def stepper(self, x, fr, st):
        """The object whose __next__ drives an iteration over x, if it is one."""
        for _ in range(3):
            ty = self.type_of(x)
            if not (isinstance(ty, tuple) and ty[0] == "cls") or x.h == "ite":
                return None
            if ty[1].find("__next__") is None:
                return None
            m = ty[1].find("__iter__")
            y = x if m is None else self.call_bound(x, "__iter__", [], [], fr, st)
            if y is x:
                return x
            x = y
        return None

    def unroll_next(self, o, body, fr, st):
        """Rounds of a for loop over an iterator object one by one, until it stops."""
        ends = []
        for n in range(self.unroll + 1):
            n0 = len(fr.exits)
            x = self.call_bound(o, "__next__", [], [], fr, st)
            rest = fr.exits[:n0]
            for e in fr.exits[n0:]:
                if e.kind == "raise" and self.raised_class(e.value) == "StopIteration":
                    b = e.state.copy()
                    b.env, b.pc = dict(st.env), e.pc
                    ends.append((e.pc, b))
                else:
                    rest.append(e)
            fr.exits[:] = rest
            if st.pc is FALSE:
                break
            n0 = len(fr.exits)
            st, brk = self.join_continue(fr, n0, body(x, st))
            ends += [(e.pc, e.state) for e in brk]
            if st is None:
                break
        else:
            raise Undecided("unroll")
        out = None
        for c, b in reversed(ends):
            out = self.merge(c, b if b.pc is not FALSE else None, out)
        return out

    def raised_class(self, v):
        if v.h == "call":
            v = v.a[0]
        if v.h in ("builtin", "class", "ext"):
            return str(v.a[0]).split(".")[-1]
        return None

    def seq(self, x, st, fr):
        """The sequence denoted by iterating over x."""
        r = self.seq_of(self.val(x, st), st, fr)
        if self.unroll and x in self.generators:
            self.set_cont(x, EMPTY, st)  # an iterator is used up
        return r

    def seq_of(self, x, st, fr):
        # x are contents already: a container term here stands for what it held at the beginning
        if x.h == "ite":
            return ite(bool_atom(x.a[0]), self.seq_of(x.a[1], st, fr), self.seq_of(x.a[2], st, fr))
        if x.h == "handle":
            r = mk("lines", x.a[0])
            self.types[r] = ("list", "str")
            return r
        ty = self.type_of(x)
        if isinstance(ty, tuple) and ty[0] == "cls":
            c = ty[1]
            m = c.find("__iter__")
            if m is not None and not m.abstract and (len(ty) > 2 or not self.overridden(c, m)):
                return self.call_bound(x, "__iter__", [], [], fr, st)
            return mk("iterof", x)
        if isinstance(ty, tuple) and ty[0] == "dict":
            return self.dict_keys(x)
        return x

    def dict_keys(self, d):
        if d.h == "dictv":
            return tup([k for k, _ in d.a[0]])
        if self.unroll and d.h == "dictset":
            return lift(lambda ks, k: self.one_more(ks, k, d), self.dict_keys(d.a[0]), d.a[1])
        if self.unroll and d.h == "dictcomp" and d.a[0].h == "tup" and all(p.h == "tup" for p in d.a[0].a[0]):
            r = EMPTY
            for p in d.a[0].a[0]:
                r = lift(lambda ks, k: self.one_more(ks, k, d), r, p.a[0][0])
            return r
        if d.h == "dictcomp":
            return t.set_of(lift(lambda c: c, self.map_seq(d.a[0], lambda e: elem(e, ZERO))))
        return mk("dictkeys", d)

    def one_more(self, ks, k, d):
        """The keys of a dictionary after one more has been set."""
        if ks.h != "tup":
            return mk("dictkeys", d)
        return ite(t.contains(k, ks), ks, tup(list(ks.a[0]) + [k]))

    def map_seq(self, s, f):
        out = []
        for p in t.parts_of(s):
            out.append(comp_of(p.vs, p.spaces, p.cond, f(p.elem)))
        return concat(out)

    def iterate(self, seq, body, names, fr, st, node):
        """Run ``body`` over the elements of ``seq``."""
        if seq.h == "ite" or seq.h in ("concat", "tup"):
            if seq.h == "tup":
                if len(seq.a[0]) > max(40, self.unroll):
                    raise Undecided("unroll")
                left = []
                for x in seq.a[0]:
                    n0 = len(fr.exits)
                    r = body(x, st)
                    st, brk = self.join_continue(fr, n0, r)
                    left += brk
                    if st is None:
                        break
                for e in reversed(left):
                    st = self.merge(e.pc, e.state, st)
                return st
            if seq.h == "concat":
                for k, p in enumerate(seq.a[0]):
                    n0 = len(fr.exits)
                    st = self.iterate(p, body, names, fr, st, node)
                    if st is None:
                        return None
                return st
            c = bool_atom(seq.a[0])
            a, b = st.copy(), st.copy()
            a.pc, b.pc = AND(st.pc, c), AND(st.pc, NOT(c))
            ra = self.iterate(seq.a[1], body, names, fr, a, node) if a.pc is not FALSE else None
            rb = self.iterate(seq.a[2], body, names, fr, b, node) if b.pc is not FALSE else None
            return self.merge(c, ra, rb)
        parts = t.parts_of(seq)
        if len(parts) == 1 and parts[0].vs:
            return self.loop(parts[0], seq, body, names, fr, st, node)
        for p in parts:
            if not p.vs:
                n0 = len(fr.exits)
                if p.cond is TRUE:
                    r = body(p.elem, st)
                    st, brk = self.join_continue(fr, n0, r)
                else:
                    a, b = st.copy(), st.copy()
                    a.pc, b.pc = AND(st.pc, p.cond), AND(st.pc, NOT(p.cond))
                    ra, brk = None, None
                    if a.pc is not FALSE:
                        ra, brk = self.join_continue(fr, n0, body(p.elem, a))
                    st = self.merge(p.cond, ra, b if b.pc is not FALSE else None)
                if brk:
                    raise Undecided("break in partially unrolled loop")
            else:
                st = self.loop(p, None, body, names, fr, st, node)
            if st is None:
                return None
        return st

    def join_continue(self, fr, n0, end):
        """Merge 'continue' exits into the end of the iteration; return 'break' exits separately."""
        keep, brk = fr.exits[:n0], []
        st = end
        for e in fr.exits[n0:]:
            if e.kind == "continue":
                if st is None:
                    st = e.state
                else:
                    st = self.merge(e.pc, e.state, st)
            elif e.kind == "break":
                brk.append(e)
            else:
                keep.append(e)
        fr.exits[n0:] = keep[n0:]
        return st, brk

    def loop(self, part, seq, body, names, fr, st, node):
        def pre(state, phis):
            pass

        def run(state):
            v = part.elem
            state.pc = part.cond if part.cond is not TRUE else TRUE
            return body(v, state)

        return self.fix(part, seq, run, names, fr, st, node, None)

    def fix(self, part, seq, run, names, fr, st, node, wcond):
        """One symbolic iteration from an arbitrary state, then closure of every modified location."""
        env_keys = [n for n in names if n in st.env and isinstance(st.env[n], T)]
        heap_keys, cont_keys = [], [k for k in st.cont if k.h == "acc"]
        entry_news = self.nid
        outer_exits = fr.exits
        nosplit = set()
        for attempt in range(8):
            nid_loop = self.nid
            phi = {}
            split = {}
            s = st.copy()
            for n in names:
                if n in env_keys:
                    init = st.env[n]
                    if init.h == "tup" and 0 < len(init.a[0]) <= 8 and n not in nosplit:
                        # a tuple carried round the loop is carried by component
                        ps = []
                        for i, x in enumerate(init.a[0]):
                            q = fresh("phi_%s%d" % (n, i))
                            ty = self.type_of(x) or ("num" if self.kind_of(x) == "num" else None)
                            if ty is not None:
                                self.types[q] = "num" if ty == "int" else ty
                            phi[("envt", (n, i, len(init.a[0])))] = (x, q)
                            ps.append(q)
                        s.env[n] = t.tup(ps)
                        split[n] = len(ps)
                        continue
                    p = fresh("phi_" + n)
                    ty = self.type_of(init)
                    if ty is None and init.h == "ite":
                        pass
                    if ty is not None:
                        self.types[p] = ty if not (isinstance(ty, tuple) and ty[0] == "tuple") else ("list", None)
                    phi[("env", n)] = (init, p)
                    if init.h == "new" and is_container_type(self.news[init.a[0]]):
                        # a rebound container variable: track its identity through the loop
                        self.types[p] = self.news[init.a[0]]
                    s.env[n] = p
                else:
                    s.env.pop(n, None)
            for k in heap_keys:
                init = st.heap.get(k)
                if init is None:
                    init = self.read_field_st(st, k[0], k[1])
                p = fresh("phi_" + k[1])
                ty = self.type_of(init)
                if ty is not None:
                    self.types[p] = ty
                phi[("heap", k)] = (init, p)
                s.heap = dict(s.heap)
                s.heap[k] = p
            for k in cont_keys:
                init = st.cont.get(k, EMPTY if k.h in ("acc", "new") else k)
                p = fresh("phi_c")
                ty = self.type_of(k) if k.h != "acc" else ("list", None)
                if ty is not None:
                    self.types[p] = ty
                phi[("cont", k)] = (init, p)
                s.cont[k] = p
            self.touch(s)
            fr.exits = []
            s.pc = TRUE
            heap0, cont0 = dict(s.heap), dict(s.cont)
            end = run(s)
            exits = fr.exits
            fr.exits = outer_exits
            ends = [e for e in exits if e.kind == "continue"]
            final = end
            for e in ends:
                final = e.state if final is None else self.merge(e.pc, e.state, final)
            others = [e for e in exits if e.kind != "continue"]
            # newly modified locations
            states = [x for x in [final] + [e.state for e in others] if x is not None]
            new_h, new_c = [], []
            for x in states:
                for k, v in x.heap.items():
                    if heap0.get(k) is not v and k not in heap_keys and not self.is_local(k[0], part, nid_loop):
                        if k not in new_h:
                            new_h.append(k)
                for k, v in x.cont.items():
                    if cont0.get(k) is not v and k not in cont_keys and not self.is_local(k, part, nid_loop):
                        if k not in new_c:
                            new_c.append(k)
            bad = set()
            for n, size in split.items():
                for x in states:
                    v = x.env.get(n, UNDEF)
                    if v is not UNDEF and not (v.h == "tup" and len(v.a[0]) == size):
                        bad.add(n)
            if not new_h and not new_c and not bad:
                break
            nosplit |= bad
            heap_keys += new_h
            cont_keys += new_c
        else:
            raise Undecided("loop does not stabilise")
        return self.close_loop(part, seq, phi, final, others, fr, st, node, nid_loop, wcond)

    def is_local(self, x, part, nid):
        if x.h == "new":
            return x.a[0] > nid
        if t.free_vars(x) & set(part.vs):
            return True
        for y in t.subterms(x):
            if y.h == "new" and y.a[0] > nid:
                return True
        return False

    def loc_get(self, state, loc):
        kind, k = loc
        if kind == "env":
            return state.env.get(k, UNDEF)
        if kind == "envt":
            n, i, size = k
            v = state.env.get(n, UNDEF)
            return v if v is UNDEF else v.a[0][i]
        if kind == "heap":
            return state.heap.get(k)
        return state.cont.get(k)

    def loc_set(self, state, loc, v):
        kind, k = loc
        if kind == "env":
            state.env[k] = v
        elif kind == "envt":
            n, i, size = k
            old = state.env.get(n, UNDEF)
            xs = list(old.a[0]) if old.h == "tup" and len(old.a[0]) == size else [UNDEF] * size
            xs[i] = v
            state.env[n] = t.tup(xs)
        elif kind == "heap":
            state.heap = dict(state.heap)
            state.heap[k] = v
        else:
            state.cont = dict(state.cont)
            state.cont[k] = v

    def close_loop(self, part, seq, phi, final, others, fr, st, node, nid, wcond):
        vs = set(part.vs)
        tuple_names = {k[0] for kind, k in phi if kind == "envt"}
        phiset = {p for _, p in phi.values()}
        upd = {}
        for loc, (init, p) in phi.items():
            if final is None:
                upd[loc] = p
            else:
                u = self.loc_get(final, loc)
                upd[loc] = self.reify_new(u, final, nid) if isinstance(u, T) and u is not UNDEF else u
        # quantified writes: modifications of objects that vary with the iteration
        qw = []
        if final is not None:
            for k, v in final.heap.items():
                if st.heap.get(k) is not v and self.is_local(k[0], part, nid) and k[0].h != "new":
                    qw.append(mk("w", self.reify_new(k[0], final, nid), k[1], self.reify_new(v, final, nid)))
            for k, v in final.cont.items():
                if st.cont.get(k) is not v and self.is_local(k, part, nid) and k.h != "new":
                    qw.append(mk("w", k, "[]", self.reify_new(v, final, nid)))
        loopinfo = LoopInfo(node, part, phi, upd, final, others, qw, st, fr)
        if self.log_loops:
            self.loop_log.append(loopinfo)
        # invariants: locations that never change
        changed = True
        subst = {}
        live = dict(phi)
        while changed:
            changed = False
            for loc, (init, p) in list(live.items()):
                if upd[loc] is p:
                    exit_mod = any(self.loc_get(e.state, loc) is not p for e in others if e.kind in ("break",))
                    subst[p] = init
                    if not exit_mod or True:
                        del live[loc]
                    changed = True
            if subst:
                upd = {l: t.substitute(u, subst) if isinstance(u, T) else u for l, u in upd.items()}
                qw = [t.substitute(q, subst) for q in qw]
        X = FALSE
        exits = []
        for e in others:
            pc = t.substitute(e.pc, subst) if subst else e.pc
            exits.append((e, pc))
            if e.kind in ("break", "return"):
                X = OR(X, pc)
        W = t.substitute(wcond[1], subst) if wcond is not None else None
        vs_l, spaces, cond = list(part.vs), list(part.spaces), part.cond
        livephis = {p for _, p in live.values()}

        # while loops driven by a counter or by a chain of links
        if wcond is not None:
            r = self.close_while(part, live, upd, W, X, subst, st)
            if r is None:
                return self.opaque_loop(part, live, upd, X, W, exits, fr, st, node, subst, qw)
            vs_l, spaces, cond, extra = r
            for p, v in extra.items():
                subst[p] = v
            upd = {l: t.substitute(u, extra) if isinstance(u, T) else u for l, u in upd.items()}
            qw = [t.substitute(q, extra) for q in qw]
            X = t.substitute(X, extra)
            exits = [(e, t.substitute(pc, extra)) for e, pc in exits]
            for loc in [l for l, (_, p) in live.items() if p in extra]:
                del live[loc]
            livephis = {p for _, p in live.values()}
            vs = set(vs_l)
        else:
            # counters running along with the iteration
            cnt = {}
            for loc, (init, p) in list(live.items()):
                u = upd[loc]
                if not isinstance(u, T) or u.h == "ite":
                    continue
                if self.kind_of(p) != "num" and not t.is_num_const(init):
                    continue
                d = t.sub(u, p) if u.h in ("poly", "fv") else None
                if d is not None and t.is_num_const(d):
                    used = any(
                        l2 != loc and isinstance(upd[l2], T) and p in t.free_vars(upd[l2]) for l2 in live
                    ) or p in t.free_vars(X)
                    if used:
                        cnt[loc] = d
            if cnt and len(vs_l) == 1 and cond is TRUE and not t.free_vars(spaces[0]) & livephis:
                sp = spaces[0]
                i = fresh("i")
                rng = t.range_(ZERO, length(sp))
                self.types[i] = "int"
                self.types[("idx", i)] = True
                ex = {}
                if sp.h == "range":
                    ex[vs_l[0]] = t.add2(sp.a[0], i)
                else:
                    ex[vs_l[0]] = elem(sp, i)
                for loc, d in cnt.items():
                    init, p = live[loc]
                    ex[p] = t.add2(init, t.mul(d, i))
                upd2 = {}
                for l, u in upd.items():
                    upd2[l] = t.substitute(u, ex) if isinstance(u, T) and l not in cnt else u
                qw = [t.substitute(q, ex) for q in qw]
                X = t.substitute(X, ex)
                exits = [(e, t.substitute(pc, ex)) for e, pc in exits]
                subst.update(ex)
                for loc, d in cnt.items():
                    init, p = live.pop(loc)
                    upd2[loc] = t.add2(init, t.mul(d, length(sp)))
                    self.loc_set(st, loc, upd2[loc])
                upd = upd2
                vs_l, spaces = [i], [rng]
                vs = {i}
                livephis = {p for _, p in live.values()}

        if t.free_vars(X) & livephis:
            return self.opaque_loop(part, live, upd, X, W, exits, fr, st, node, subst, qw)
        for sp in spaces:
            if t.free_vars(sp) & livephis:
                return self.opaque_loop(part, live, upd, X, W, exits, fr, st, node, subst, qw)

        ex_cond = AND(cond, X)
        found = t.exists_part(vs_l, spaces, ex_cond) if X is not FALSE else FALSE
        base_spaces, base_cond = spaces, cond
        if X is not FALSE:
            # iterations that run to completion are those before the first exit
            if len(vs_l) == 1:
                lam = mk("lam", 1, t.close(AND(cond, X), vs_l))
                base_spaces = [mk("until", spaces[0], lam)]
            else:
                lam = mk("lam", len(vs_l), t.close(AND(cond, X), vs_l))
                base_spaces = spaces[:-1] + [mk("untiln", spaces[-1], tuple(spaces[:-1]), lam)]
            base_cond = constrain(cond, NOT(AND(cond, X)))

        def acc_value(loc, spaces_, cond_):
            init, p = live[loc]
            return self.close_acc(p, init, upd[loc], vs_l, spaces_, cond_, livephis)

        normal, until = {}, {}
        ok = True
        for loc in live:
            r = acc_value(loc, spaces, cond)
            if r is None:
                ok = False
                break
            normal[loc] = r
            if X is not FALSE:
                until[loc] = acc_value(loc, base_spaces, base_cond)
        if not ok:
            return self.opaque_loop(part, live, upd, X, W, exits, fr, st, node, subst, qw)

        out = st.copy()
        for loc, v in normal.items():
            self.loc_set(out, loc, v)
        # variables first bound inside the loop keep their last value
        if final is not None:
            for n, v in final.env.items():
                if ("env", n) not in phi and n not in tuple_names and n not in st.env and isinstance(v, T):
                    lv = self.reify_new(v, final, nid)
                    lv = t.substitute(lv, subst)
                    if not (t.free_vars(lv) & livephis):
                        c = comp_of(vs_l, spaces, cond, lv)
                        if c is not EMPTY:
                            out.env[n] = self.last_of(c, UNDEF)
        if qw:
            items = concat([comp_of(vs_l, base_spaces, base_cond, q) for q in qw])
            out.cont[QW] = concat([out.cont.get(QW, EMPTY), items])
        self.touch(out)
        out.pc = st.pc
        if X is FALSE:
            for e, pc in exits:  # raises
                c = t.exists_part(vs_l, spaces, AND(cond, pc))
                v = self.first_value(vs_l, spaces, AND(cond, pc), t.substitute(e.value, subst))
                fr.exits.append(Exit("raise", AND(st.pc, c), v, out, e.node))
                out.pc = AND(out.pc, NOT(c))
            return out if out.pc is not FALSE else None

        # exits: state at the first exit
        brk_state = None
        for e, pc in exits:
            c_here = pc
            s2 = st.copy()
            for loc, (init, p) in phi.items():
                if loc in live:
                    base_v = until[loc]
                else:
                    base_v = None
                v = self.loc_get(e.state, loc)
                if not isinstance(v, T):
                    continue
                v = t.substitute(self.reify_new(v, e.state, nid), subst)
                if loc in live and v is live[loc][1]:
                    v = base_v
                elif t.free_vars(v) & livephis:
                    v = t.substitute(v, {live[l][1]: until[l] for l in live})
                v = self.first_value(vs_l, spaces, ex_cond, v)
                self.loc_set(s2, loc, v)
            for n, v in e.state.env.items():
                if ("env", n) not in phi and n not in tuple_names and n not in st.env and isinstance(v, T):
                    lv = t.substitute(self.reify_new(v, e.state, nid), subst)
                    if not (t.free_vars(lv) & livephis):
                        s2.env[n] = self.first_value(vs_l, spaces, ex_cond, lv)
            if qw:
                s2.cont[QW] = concat([s2.cont.get(QW, EMPTY), items])
            self.exit_writes(e, s2, st, part, nid, subst, live, until, livephis, vs_l, spaces, ex_cond)
            self.touch(s2)
            # which of several exits is taken is decided on the first exiting element
            which = TRUE if len(exits) == 1 else self.first_cond(vs_l, spaces, ex_cond, pc)
            epc = AND(st.pc, AND(found, which))
            if epc is FALSE:
                continue
            if e.kind == "return":
                v = t.substitute(self.reify_new(e.value, e.state, nid), subst)
                if t.free_vars(v) & livephis:
                    v = t.substitute(v, {live[l][1]: until[l] for l in live})
                fr.exits.append(Exit("return", epc, self.first_value(vs_l, spaces, ex_cond, v), s2, e.node))
            elif e.kind == "raise":
                fr.exits.append(Exit("raise", epc, e.value, s2, e.node))
            else:
                s2.pc = epc
                brk_state = s2 if brk_state is None else self.merge(epc, s2, brk_state)
        out.pc = AND(st.pc, NOT(found))
        if brk_state is not None:
            r = self.merge(found, brk_state, out if out.pc is not FALSE else None)
            return r
        return out if out.pc is not FALSE else None

    def exit_writes(self, e, s2, st, part, nid, subst, live, until, livephis, vs_l, spaces, ex_cond):
        """What the last, unfinished iteration did to objects that depend on the iteration."""
        def here(v):
            v = t.substitute(self.reify_new(v, e.state, nid), subst)
            if t.free_vars(v) & livephis:
                v = t.substitute(v, {live[l][1]: until[l] for l in live})
            return self.first_value(vs_l, spaces, ex_cond, v)

        for k, v in e.state.heap.items():
            if st.heap.get(k) is not v and isinstance(v, T) and k[0].h != "new" and self.is_local(k[0], part, nid):
                k2 = (here(k[0]), k[1])
                s2.heap = dict(s2.heap)
                s2.heap.pop(k2, None)
                s2.heap[k2] = here(v)
        for k, v in e.state.cont.items():
            if k is QW or k.h == "new" or st.cont.get(k) is v or not self.is_local(k, part, nid):
                continue
            s2.cont = dict(s2.cont)
            s2.cont[here(k)] = here(v)

    def first_value(self, vs, spaces, cond, v):
        """v at the first element satisfying cond."""
        if not isinstance(v, T) or not (t.free_vars(v) & set(vs)):
            return v

        def leafv(x):
            if not (t.free_vars(x) & set(vs)):
                return x
            return self.first_of(comp_of(vs, spaces, cond, x))

        if v.h == "ite" and not any(t.free_vars(a) & set(vs) for a in t.tree_atoms(v)):
            return lift(leafv, v)
        return self.first_of(comp_of(vs, spaces, cond, v))

    def first_cond(self, vs, spaces, cond, c):
        c = constrain(c, cond)
        if c is TRUE or c is FALSE:
            return c
        if not (t.free_vars(c) & set(vs)):
            return c
        return as_bool(self.first_of(comp_of(vs, spaces, cond, c)))

    def first_of(self, c):
        return t.first(c)

    def last_of(self, c, default):
        def leaf(x):
            if x.h == "tup":
                return x.a[0][-1] if x.a[0] else default
            ne = t.nonempty(x)
            return ite(ne, mk("last", x), default)

        return lift(leaf, c)

    def close_acc(self, p, init, u, vs, spaces, cond, livephis):
        """Closed form of an accumulator with update u(p), or None."""
        others = livephis - {p}
        if not isinstance(u, T):
            return None
        if t.free_vars(u) & others:
            return None
        if u is p:
            return init
        lvs = t.leaves(u)
        atoms_phi = any(p in t.free_vars(a) for a in t.tree_atoms(u))
        bool_like = self.type_of(p) == "bool" or all(t.is_bool(l) or l is p for l in lvs)
        if bool_like:
            pt = bool_atom(mk("truthy", p))
            ub = lift(lambda l: pt if l is p else l, u)
            if all(t.is_bool(l) for l in t.leaves(ub)):
                a = mk("truthy", p)
                u0, u1 = t.restrict(ub, a, False), t.restrict(ub, a, True)
                if not (p in t.free_vars(u0) or p in t.free_vars(u1)):
                    ib = as_bool(init) if init is not UNDEF else FALSE
                    if u0 is FALSE:
                        return AND(ib, NOT(t.exists_part(vs, spaces, AND(cond, NOT(u1)))))
                    if u1 is TRUE:
                        return OR(ib, t.exists_part(vs, spaces, AND(cond, u0)))
        if atoms_phi:
            return self.fold(p, init, u, vs, spaces, cond)
        mode = None
        rest = {}
        for l in lvs:
            m, r = self.acc_step(l, p)
            if m is None:
                mode = "bad"
                break
            rest[l] = r
            if m == "id":
                continue
            if mode is None:
                mode = m
            elif mode != m:
                mode = "bad"
                break
        if mode == "bad" or mode is None:
            return self.fold(p, init, u, vs, spaces, cond)
        part = lambda body: comp_of(vs, spaces, cond, body)
        if mode == "set":
            # conditional overwrite: last one wins
            c = FALSE
            for l in lvs:
                pass
            hit = lift(lambda l: FALSE if l is p else TRUE, u)
            v = t.constrain(lift(lambda l: UNDEF if l is p else l, u), hit)
            v = lift(lambda l: ZERO if l is UNDEF else l, v) if v.h == "ite" else v
            if not (t.free_vars(v) & set(vs)) and v.h != "ite":
                return ite(t.exists_part(vs, spaces, AND(cond, hit)), v, init)
            return self.last_of(comp_of(vs, spaces, AND(cond, hit), v), init)
        body = t.lift(lambda l: rest[l] if rest[l] is not None else NEUTRAL[mode], u)
        if mode == "add":
            return t.add2(init, t.sum_of(part(body)))
        if mode == "str":
            return t.str_concat([init, self.join(const(""), part(body))])
        if mode == "concat":
            return concat([init, self.flatten(vs, spaces, cond, body)])
        if mode == "union":
            return t.union([init, t.set_of(self.flatten(vs, spaces, cond, body))])
        if mode == "diff":
            return t.diff(init, t.set_of(self.flatten(vs, spaces, cond, body)))
        if mode in ("max", "min"):
            hit = lift(lambda l: FALSE if l is p else TRUE, u)
            return t.minmax(mode, [init, self.agg(mode, comp_of(vs, spaces, AND(cond, hit), body))])
        if mode == "dict":
            return self.dmerge([init, t.dictcomp(self.flatten(vs, spaces, cond, body))])
        return None

    def flatten(self, vs, spaces, cond, body):
        """Concatenation of body over the iteration (body is itself a sequence)."""
        out = []

        def paths(b, c):
            if c is FALSE:
                return
            if b.h == "ite":
                a = bool_atom(b.a[0])
                paths(b.a[1], AND(c, a))
                paths(b.a[2], AND(c, NOT(a)))
                return
            for p in t.parts_of(b):
                out.append((list(vs) + list(p.vs), list(spaces) + list(p.spaces), AND(c, p.cond), p.elem))

        paths(body, cond)
        # pieces over the same binders merge into one piece with a conditional element
        return concat([comp_of(*o) for o in merge_pieces(out)])

    def acc_step(self, l, p):
        if l is p:
            return "id", None
        if l.h == "concat" and l.a[0][0] is p and not any(p in t.free_vars(x) for x in l.a[0][1:]):
            return "concat", concat(list(l.a[0][1:]))
        if l.h == "union" and p in l.a[0]:
            r = [x for x in l.a[0] if x is not p]
            if not any(p in t.free_vars(x) for x in r):
                return "union", t.union(r)
            return None, None
        if l.h == "diff" and l.a[0] is p and p not in t.free_vars(l.a[1]):
            return "diff", l.a[1]
        if l.h in ("max", "min") and p in l.a[0]:
            r = [x for x in l.a[0] if x is not p]
            if not any(p in t.free_vars(x) for x in r):
                return l.h, t.minmax(l.h, r)
            return None, None
        if l.h == "fmt" and l.a[0][0] is p and not any(p in t.free_vars(x) for x in l.a[0][1:]):
            return "str", t.str_concat(list(l.a[0][1:]))
        if l.h == "dictset" and l.a[0] is p and not (p in t.free_vars(l.a[1]) or p in t.free_vars(l.a[2])):
            return "dict", tup([tup([l.a[1], l.a[2]])])
        if l.h == "poly":
            d, c = t.poly_of(l)
            if d.get((p,)) == 1:
                r = t.sub(l, p)
                if p not in t.free_vars(r):
                    return "add", r
        if p not in t.free_vars(l):
            return "set", l
        return None, None

    def fold(self, p, init, u, vs, spaces, cond):
        """Generic left fold; canonical but uninterpreted."""
        item = tup(list(vs)) if len(vs) != 1 else vs[0]
        seq = comp_of(vs, spaces, cond, item)
        lam = mk("lam", 1 + len(vs), t.close(u, [p] + list(vs)))
        return mk("fold", lam, seq, init)

    def agg(self, op, c):
        """max / min over a sequence (identity when it is empty)."""
        def leaf(x):
            pieces = x.a[0] if x.h == "concat" else (x,)
            outs = []
            for p in pieces:
                if p.h == "tup":
                    outs.extend(p.a[0])
                elif p.h == "sorted" or p.h == "reversed":
                    outs.append(self.agg(op, p.a[0]))
                elif p.h == "comp" and p.a[2].h in (op,):
                    # max of maxima
                    q = t.parts_of(p)[0]
                    for arg in q.elem.a[0]:
                        outs.append(self.agg(op, comp_of(q.vs, q.spaces, q.cond, arg)))
                elif p.h == "comp" and p.a[2].h == "poly":
                    outs.append(mk("agg", op, p))
                else:
                    outs.append(mk("agg", op, p))
            if not outs:
                return t.NINF if op == "max" else t.INF
            return t.minmax(op, outs)

        return lift(leaf, c)

    def join(self, sep, c):
        def leaf(s, x):
            if x.h == "tup":
                out = []
                for k, y in enumerate(x.a[0]):
                    if k:
                        out.append(s)
                    out.append(y)
                return t.str_concat(out) if out else const("")
            return mk("join", s, x)

        return lift(leaf, sep, c)

    def opaque_loop(self, part, live, upd, X, W, exits, fr, st, node, subst, qw):
        """Give up on the loop: every location it changes becomes an uninterpreted symbol."""
        locs = list(live)
        vs = list(part.vs)
        spaces = []
        for k, s_ in enumerate(part.spaces):
            spaces.append(t.close(s_, vs[:k]))
        if W is not None and X is not FALSE and not any(e.kind == "return" for e, _ in exits) and all(
                self.loc_get(e.state, l) is live[l][1] for e, _ in exits if e.kind == "break" for l in locs):
            # leaving before anything has changed is a loop condition
            W, X = AND(W, NOT(X)), FALSE
        anon = mk("var", "phi")
        blind = {live[l][1]: anon for l in locs}
        blind.update((v, mk("var", "it%d" % i)) for i, v in enumerate(vs))

        def rank(l):
            init, u = live[l][0], upd[l]
            return (init.key if isinstance(init, T) else "", t.substitute(u, blind).key if isinstance(u, T) else "", str(l))

        locs.sort(key=rank)
        free = {l: (t.free_vars(upd[l]) if isinstance(upd[l], T) else set()) for l in locs}
        control = t.free_vars(part.cond) | t.free_vars(X) | (t.free_vars(W) if W is not None else set())

        def loop_of(roots):
            """The loop restricted to what the given locations and its control depend on."""
            need = set(roots) | control
            while True:
                more = set()
                for l in locs:
                    if live[l][1] in need:
                        more |= free[l]
                if more <= need:
                    break
                need |= more
            keep = [l for l in locs if live[l][1] in need]
            allv = vs + [live[l][1] for l in keep]
            inits = tuple(live[l][0] if isinstance(live[l][0], T) else UNDEF for l in keep)
            ups = tuple(t.close(upd[l], allv) if isinstance(upd[l], T) else UNDEF for l in keep)
            guard = mk("tup", (t.close(part.cond, allv), t.close(X, allv), t.close(W, allv) if W is not None else TRUE))
            return mk("loop", tuple(spaces), inits, ups, guard), keep

        out = st.copy()
        lp = loop_of([live[l][1] for l in locs])[0]
        for l in locs:
            own, keep = loop_of([live[l][1]])
            v = mk("loopval", own, keep.index(l))
            ty = self.type_of(live[l][1])
            if ty is not None:
                self.types[v] = ty
            if l[0] == "env" and live[l][0].h == "new":
                pass
            self.loc_set(out, l, v)
        if qw:
            out.cont[QW] = concat([out.cont.get(QW, EMPTY), tup([mk("opaque", "loopwrites", lp)])])
        self.touch(out)
        for e, pc in exits:
            if e.kind in ("return", "raise"):
                self.version += 1
                c = bool_atom(mk("bool", "loopexit", lp, num(len(fr.exits))))
                fr.exits.append(Exit(e.kind, AND(st.pc, c), mk("opaque", "loopret", lp, const(e.kind)), out, e.node))
                out = out.copy()
                out.pc = AND(out.pc, NOT(c))
        self.opaque_notes.append("%s:%s loop" % (fr.module.rel if fr.module else "?", getattr(node, "lineno", 0)))
        return out

    def s_While(self, s, fr, st):
        names = assigned(s.body) | assigned_expr(s.test)
        if s.orelse:
            raise Undecided("while-else")
        if self.unroll:
            return self.unroll_while(s, fr, st)
        W = [None, TRUE]

        def run(state):
            c = self.truth(self.ev(s.test, fr, state), state, fr)
            W[1] = c
            W[0] = state
            state.pc = c
            if c is FALSE:
                return None
            return self.block(s.body, fr, state)

        part = t.Part([], [], TRUE, NONE)
        return self.fix(part, None, run, names, fr, st, s, W)

    def unroll_while(self, s, fr, st):
        """Rounds of a while loop one by one: only over literal shapes, where the rounds run out."""
        ends = []
        for n in range(self.unroll + 1):
            c = constrain(self.truth(self.ev(s.test, fr, st), st, fr), st.pc)
            if c is not TRUE:
                b = st.copy()
                b.pc = AND(st.pc, NOT(c))
                ends.append((NOT(c), b))
            if c is FALSE:
                break
            a = st.copy()
            a.pc = AND(st.pc, c)
            n0 = len(fr.exits)
            st, brk = self.join_continue(fr, n0, self.block(s.body, fr, a))
            ends += [(e.pc, e.state) for e in brk]
            if st is None:
                break
        else:
            raise Undecided("unroll")
        out = None
        for c, b in reversed(ends):
            out = self.merge(c, b if b.pc is not FALSE else None, out)
        return out

    def close_while(self, part, live, upd, W, X, subst, st):
        """Turn a while loop into an iteration over a range or over a chain of links."""
        W = t.substitute(W, subst)
        cont = AND(W, NOT(X)) if X is not FALSE else W
        fv = t.free_vars(W)
        for loc, (init, p) in live.items():
            u = upd[loc]
            if not isinstance(u, T):
                continue
            used = {q for _, q in live.values() if q in t.free_vars(W)}
            if X is not FALSE and W is TRUE:
                used |= {q for _, q in live.values() if q in t.free_vars(X)}
            if used - {p}:
                continue
            # chain: p := p.link
            if u.h == "field" and u.a[0] is p or u.h == "prop" and u.a[0] is p:
                link = u.a[1]
                guard = W if W is not TRUE else NOT(X)
                v = fresh("c")
                self.types[v] = self.type_of(p)
                g = t.close(t.substitute(guard, {p: v}), [v])
                ch = mk("chain", init, link, g)
                self.loc_set(st, loc, mk("chainend", ch))
                return [v], [ch], TRUE, {p: v}
            # counter
            d = t.sub(u, p) if u.h in ("poly", "fv", "const") and self.kind_of(init) == "num" else None
            if d is not None and t.is_num_const(d) and d.a[0] in (1, -1):
                atoms = t.tree_atoms(W)
                if W is TRUE or len(atoms) != 1:
                    continue
                # W is p < b (or p <= b-1 ...): recover b from the linear atom
                (a,) = atoms
                if a.h not in ("le", "lt", "eq0"):
                    continue
                dd, cc = t.poly_of(a.a[0])
                k = dd.get((p,))
                if k is None:
                    continue
                restp = t.sub(a.a[0], t.mul(num(k), p))
                if p in t.free_vars(restp):
                    continue
                b = t.mul(num(-1 / k), restp)  # boundary value of p
                pos = t.restrict(W, a, True) is TRUE
                # condition in the form p (op) b
                if a.h == "eq0":
                    if pos:
                        continue
                    lo, hi = (init, b) if d.a[0] == 1 else (b, init)
                    v = fresh("i")
                    self.types[v] = "int"
                    if d.a[0] == 1:
                        sp = t.range_(init, b)
                    else:
                        sp = mk("reversed", t.range_(t.add2(b, ONE), t.add2(init, ONE)))
                else:
                    up = (k > 0) == pos  # p below b
                    incl = (a.h == "le") == pos
                    if up != (d.a[0] == 1):
                        continue
                    if d.a[0] == 1:
                        sp = t.range_(init, t.add2(b, ONE) if incl else b)
                    else:
                        lo = b if incl else t.add2(b, ONE)
                        sp = mk("reversed", t.range_(lo, t.add2(init, ONE)))
                    v = fresh("i")
                    self.types[v] = "int"
                endv = t.minmax("max", [init, sp.a[1]]) if sp.h == "range" else mk("opaque", "counter-end")
                if X is FALSE:
                    self.loc_set(st, loc, endv)
                else:
                    self.loc_set(st, loc, mk("opaque", "counter-end"))
                return [v], [sp], TRUE, {p: v}
        return None

    # -- expressions --------------------------------------------------------------------------

    def ev(self, e, fr, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(e).__name__)
        return m(e, fr, st)

    def e_Constant(self, e, fr, st):
        return const(e.value) if not isinstance(e.value, (bytes, type(Ellipsis))) else mk("const", repr(e.value))

    def e_Name(self, e, fr, st):
        return self.name(e.id, st, fr)

    def e_NamedExpr(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        st.env[e.target.id] = v
        return v

    def e_Attribute(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        name = e.attr
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            name = "_%s%s" % (fr.cls.name.lstrip("_"), name)
        return self.attr(o, name, st, fr)

    def e_Tuple(self, e, fr, st):
        return self.display(e.elts, fr, st)

    def display(self, elts, fr, st):
        out, cur = [], []
        for x in elts:
            if isinstance(x, ast.Starred):
                if cur:
                    out.append(tup(cur))
                    cur = []
                out.append(self.seq(self.ev(x.value, fr, st), st, fr))
            else:
                cur.append(self.ev(x, fr, st))
        if cur or not out:
            out.append(tup(cur))
        return concat(out)

    def e_List(self, e, fr, st):
        return self.new_container("list", self.display(e.elts, fr, st), st)

    def e_Set(self, e, fr, st):
        return self.new_container("set", t.set_of(self.display(e.elts, fr, st)), st)

    def e_Dict(self, e, fr, st):
        pieces = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                pieces.append(self.val(self.ev(v, fr, st), st))
            else:
                kk = self.ev(k, fr, st)
                vv = self.ev(v, fr, st)
                if kk.h == "const":
                    pieces.append(mk("dictv", ((kk, vv),)))
                else:
                    pieces = [mk("dictset", self.dmerge(pieces), kk, vv)]
        return self.new_container("dict", self.dmerge(pieces), st)

    def e_Lambda(self, e, fr, st):
        return self.closure(e, fr, st)

    def closure(self, node, fr, st):
        c = mk("clo", len(self.closures), getattr(node, "name", "lambda"))
        self.closures[c] = (node, (st.env if not isinstance(node, ast.Lambda) else dict(st.env), fr.closure), fr)
        return c

    def e_IfExp(self, e, fr, st):
        c = self.truth(self.ev(e.test, fr, st), st, fr)
        c = constrain(c, st.pc)
        if c is TRUE:
            return self.ev(e.body, fr, st)
        if c is FALSE:
            return self.ev(e.orelse, fr, st)
        return self.branch_expr(c, lambda s: self.ev(e.body, fr, s), lambda s: self.ev(e.orelse, fr, s), st)

    def branch_expr(self, c, fa, fb, st):
        pc = st.pc
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(pc, c), AND(pc, NOT(c))
        va = fa(a) if a.pc is not FALSE else UNDEF
        vb = fb(b) if b.pc is not FALSE else UNDEF
        m = self.merge(c, a, b)
        st.env, st.heap, st.cont, st.version = m.env, m.heap, m.cont, m.version
        st.pc = m.pc
        if va is UNDEF and vb is not UNDEF and a.pc is FALSE:
            return vb
        if vb is UNDEF and va is not UNDEF and b.pc is FALSE:
            return va
        if va is UNDEF and vb is UNDEF:
            return UNDEF
        return ite(c, va, vb)

    def e_BoolOp(self, e, fr, st):
        is_and = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], fr, s)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s, fr)
            c = constrain(c, s.pc)
            if c is TRUE:
                return go(i + 1, s) if is_and else v
            if c is FALSE:
                return v if is_and else go(i + 1, s)
            if is_and:
                return self.branch_expr(c, lambda z: go(i + 1, z), lambda z: self.falsy(v, c), s)
            return self.branch_expr(c, lambda z: self.truthy_val(v, c), lambda z: go(i + 1, z), s)

        return go(0, st)

    def falsy(self, v, c):
        if t.is_bool(v) or all(t.is_bool(l) for l in t.leaves(v)):
            return FALSE
        if self.kind_of(v) == "obj":
            return NONE
        return v

    def truthy_val(self, v, c):
        if t.is_bool(v) or all(t.is_bool(l) for l in t.leaves(v)):
            return TRUE
        return v

    def truth(self, v, st, fr):
        v = self.val(v, st)
        if v.h == "new":
            ty = self.news[v.a[0]]
            if isinstance(ty, tuple) and ty[0] == "cls":
                return TRUE
        return as_bool(v)

    def e_UnaryOp(self, e, fr, st):
        v = self.ev(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(v, st, fr))
        if isinstance(e.op, ast.USub):
            return t.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v)

    def e_BinOp(self, e, fr, st):
        a = self.ev(e.left, fr, st)
        b = self.ev(e.right, fr, st)
        return self.binop(type(e.op).__name__, a, b, st, fr)

    def binop(self, op, a, b, st, fr):
        a, b = self.val(a, st), self.val(b, st)
        if op == "Add":
            ka, kb = self.kind_of(a), self.kind_of(b)
            if ka == "seq" or kb == "seq":
                return concat([a, b])
            return t.add2(a, b)
        if op == "Sub":
            return t.sub(a, b)
        if op == "Mult":
            if self.kind_of(a) in ("seq", "str") or self.kind_of(b) in ("seq", "str"):
                for p, q in ((a, b), (b, a)):
                    if p.h == "tup" and t.is_num_const(q) and q.a[0] == int(q.a[0]) and len(p.a[0]) * q.a[0] <= 64:
                        return mk("tup", p.a[0] * max(int(q.a[0]), 0))
                return mk("repeat", a, b)
            return t.mul(a, b)
        if op == "Div":
            return t.div(a, b)
        if op == "FloorDiv":
            return lift(lambda x, y: const(x.a[0] // y.a[0]) if t.is_num_const(x) and t.is_num_const(y) and y.a[0] else mk("floordiv", x, y), a, b)
        if op == "Mod":
            if t._is_str(a) or self.kind_of(a) == "str":
                return mk("opaque", "percent", a, b)
            return lift(lambda x, y: const(x.a[0] % y.a[0]) if t.is_num_const(x) and t.is_num_const(y) and y.a[0] else mk("mod", x, y), a, b)
        if op == "Pow":
            return self.power(a, b)
        if op in ("BitAnd", "BitOr", "BitXor"):
            ka, kb = self.kind_of(a), self.kind_of(b)
            many = lambda x: x.h == "ite" and all(t.is_setlike(y) for y in t.leaves(x))
            if ka == "set" or kb == "set" or t.is_setlike(a) or t.is_setlike(b) or many(a) or many(b):
                if op == "BitOr":
                    return t.union([a, b])
                if op == "BitAnd":
                    return t.inter(a, b)
                return t.union([t.diff(a, b), t.diff(b, a)])
            isb = lambda x: all(t.is_bool(l) for l in t.leaves(x)) or self.type_of(x) == "bool" or x.h in t.ATOM_HEADS
            if isb(a) and isb(b):
                x, y = as_bool(a), as_bool(b)
                if op == "BitAnd":
                    return AND(x, y)
                if op == "BitOr":
                    return OR(x, y)
                return ite(x, NOT(y), y)
            return mk("bitop", op, a, b)
        if op == "MatMult":
            raise Undecided("matmul")
        return mk("bitop", op, a, b)

    def power(self, a, b):
        if t.is_num_const(b) and isinstance(b.a[0], int) and 0 <= b.a[0] <= 4:
            r = ONE
            for _ in range(b.a[0]):
                r = t.mul(r, a)
            return r
        if t.is_num_const(b) and b.a[0] == 0.5:
            return lift(lambda x: mk("call", mk("ext", "math.sqrt"), (x,), ()), a)
        return mk("pow", a, b)

    def e_Compare(self, e, fr, st):
        left = self.ev(e.left, fr, st)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr, st)
            r = AND(r, self.compare(type(op).__name__, left, right, st, fr))
            left = right
        return r

    def compare(self, op, a, b, st, fr):
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st, fr)
            return r if op == "In" else NOT(r)
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            if a.h != "new" and b.h != "new" or op in ("Eq", "NotEq"):
                va, vb = (self.val(a, st), self.val(b, st)) if op in ("Eq", "NotEq") else (a, b)
            else:
                va, vb = a, b
            r = self.equal(va, vb, op in ("Is", "IsNot"), st, fr)
            return r if op in ("Is", "Eq") else NOT(r)
        a, b = self.val(a, st), self.val(b, st)
        if t.is_setlike(a) and t.is_setlike(b):
            return mk("opaque", "setcmp", op, a, b)
        if a.h == "tup" and b.h == "tup" and len(a.a[0]) == len(b.a[0]) and op in ("Lt", "LtE", "Gt", "GtE"):
            # component by component
            if op in ("Gt", "GtE"):
                a, b = b, a
            r = FALSE if op in ("Lt", "Gt") else TRUE
            for x, y in reversed(list(zip(a.a[0], b.a[0]))):
                less = self.compare("Lt", x, y, st, fr)
                r = OR(less, AND(self.equal(x, y, False, st, fr), r)) if r is not FALSE else less
                if r is TRUE or (x.h != "tup" and y.h != "tup" and len(a.a[0]) == 1):
                    r = t.lt(x, y) if op in ("Lt", "Gt") else t.le(x, y)
            return r
        if op == "Lt":
            return t.lt(a, b)
        if op == "LtE":
            return t.le(a, b)
        if op == "Gt":
            return t.lt(b, a)
        if op == "GtE":
            return t.le(b, a)
        raise Undecided("compare")

    def equal(self, a, b, ident, st, fr):
        if a is NONE or b is NONE:
            return t.isnone(b if a is NONE else a)
        if not ident:
            def leaf(x, y):
                ty = self.type_of(x)
                if isinstance(ty, tuple) and ty[0] == "cls" and x.h not in ("enum",):
                    m = ty[1].find("__eq__")
                    if m is not None and not (len(ty) <= 2 and self.overridden(ty[1], m)):
                        return bool_atom(mk("eq", *sorted([x, y], key=lambda z: z.key))) if x is not y else TRUE
                return t.eq(x, y)

            return lift(leaf, a, b)
        return lift(lambda x, y: FALSE if x.h == "new" and y.h == "new" and x is not y else t.eq(x, y), a, b)

    def contains(self, x, c, st, fr):
        c = self.val(c, st)
        x = self.val(x, st) if x.h == "new" and is_container_type(self.news[x.a[0]]) else x

        def leaf(e, s):
            ty = self.type_of(s)
            if s.h == "dictof":
                if self.remembers and s.a[0].h == "new" and e.h == "const":
                    c = self.news[s.a[0].a[0]]
                    m = c[1].find(e.a[0]) if isinstance(c, tuple) and c[0] == "cls" else None
                    if m is not None and m.kind == "cached":
                        got = st.heap.get((s.a[0], "@" + e.a[0]))
                        return FALSE if got is None else NOT(self.forgotten(got, s.a[0], e.a[0]))
                return bool_atom(mk("in", e, s))
            if isinstance(ty, tuple) and ty[0] == "dict":
                return self.dict_has(s, e)
            if s.h in ("kwrest",):
                return bool_atom(mk("in", e, s))
            return t.contains(e, s)

        return lift(leaf, x, c)

    def distinct(self, x, y):
        """Fresh objects without their own equality are themselves only."""
        if x.a[0] not in self.news or y.a[0] not in self.news:
            return False
        tx, ty = self.news[x.a[0]], self.news[y.a[0]]
        return not any(isinstance(z, tuple) and z[0] == "cls" and z[1].find("__eq__") for z in (tx, ty)) and not (
            is_container_type(tx) or is_container_type(ty))

    def dict_has(self, d, k):
        if d.h == "ite":
            return lift(lambda x: self.dict_has(x, k), d)
        if d.h == "dictv":
            return OR(*[t.eq(k, x) for x, _ in d.a[0]])
        if d.h == "dmerge":
            return OR(*[self.dict_has(p, k) for p in d.a[0]])
        if d.h == "dictset":
            return OR(t.eq(d.a[1], k), self.dict_has(d.a[0], k))
        if d.h == "kwrest" and k.h == "const" and k.a[0] in d.a[1]:
            return FALSE
        return bool_atom(mk("in", k, d))

    def e_Subscript(self, e, fr, st):
        o = self.ev(e.value, fr, st)
        if isinstance(e.slice, ast.Slice):
            c = self.val(o, st)
            sl = e.slice
            if sl.step is not None:
                step = self.ev(sl.step, fr, st)
                if t.is_num_const(step) and step.a[0] == -1 and sl.lower is None and sl.upper is None:
                    return self.reversed_(c)
                return mk("opaque", "step", c)
            lo = self.ev(sl.lower, fr, st) if sl.lower else ZERO
            hi = self.ev(sl.upper, fr, st) if sl.upper else NONE
            r = t.slice_(c, lo, hi)
            if id(e) in self.kept_slices(fr):
                return self.new_container("list", r, st)
            return r
        k = self.ev(e.slice, fr, st)
        return self.item(o, k, st, fr)

    def kept_slices(self, fr):
        """Slices bound to a name: copies that the function may go on to change."""
        node = fr.func
        if node is None:
            return ()
        if id(node) not in self.slices:
            self.slices[id(node)] = (node, {id(x.value) for x in ast.walk(node)
                                            if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Subscript)
                                            and isinstance(x.value.slice, ast.Slice)})
        return self.slices[id(node)][1]

    def reversed_(self, c):
        def leaf(x):
            if x.h == "reversed":
                return x.a[0]
            if x.h == "tup":
                return tup(list(reversed(x.a[0])))
            return mk("reversed", x)

        return lift(leaf, c)

    def item(self, o, k, st, fr=None):
        c = self.val(o, st)

        def leaf(s, x):
            if s.h == "dictof":
                return self.read_field_st(st, s.a[0], x.a[0]) if x.h == "const" else mk("elem", s, x)
            ty = self.type_of(s)
            if isinstance(ty, tuple) and ty[0] == "dict" or s.h in ("dictv", "dmerge", "dictset", "kwrest", "dictcomp"):
                r = self.dict_get(s, x, None)
                if self.guard_stack:
                    self.guard_stack[-1].append(("KeyError", self.dict_has(s, x)))
                return r
            if isinstance(ty, tuple) and ty[0] == "cls" and fr is not None:
                m = ty[1].find("__getitem__")
                if m is not None:
                    return self.call_bound(s, "__getitem__", [("pos", x)], [], fr, st)
            return elem(s, x)

        return lift(leaf, c, k)

    def dict_get(self, d, k, default):
        """d[k] (default None) or d.get(k, default)."""
        if d.h == "ite":
            return ite(bool_atom(d.a[0]), self.dict_get(d.a[1], k, default), self.dict_get(d.a[2], k, default))
        if self.unroll and k.h == "ite":
            return ite(bool_atom(k.a[0]), self.dict_get(d, k.a[1], default), self.dict_get(d, k.a[2], default))
        if d.h == "dictv":
            for kk, v in d.a[0]:
                if kk is k:
                    return v
            if k.h == "const" or (k.h == "new" or t.ground(k)) and all(t.eq(q, k) is FALSE for q, _ in d.a[0]):
                return default if default is not None else UNDEF
        if d.h == "dmerge" and t.ground(k):
            last = d.a[0][-1]
            if last.h == "dictv":
                for kk, v in last.a[0]:
                    if kk is k:
                        return v
                return self.dict_get(self.dmerge(list(d.a[0][:-1])), k, default)
        if d.h == "dictset":
            e = t.eq(d.a[1], k)
            return ite(e, d.a[2], self.dict_get(d.a[0], k, default)) if e is not TRUE else d.a[2]
        if default is None:
            return mk("elem", d, k)
        return ite(self.dict_has(d, k), mk("elem", d, k), default)

    def e_JoinedStr(self, e, fr, st):
        parts = []
        for v in e.values:
            parts.append(self.ev(v, fr, st))
        return lift(lambda *xs: t.str_concat(list(xs)), *parts) if parts else const("")

    def e_FormattedValue(self, e, fr, st):
        v = self.ev(e.value, fr, st)
        spec = const("") if e.format_spec is None else self.ev(e.format_spec, fr, st)
        return self.format(self.val(v, st), spec, e.conversion if e.conversion != -1 else 0, st)

    def format(self, v, spec, conv, st):
        spec = norm_spec(spec)

        if conv == ord("s") and spec.h == "const" and spec.a[0] == "":
            conv = 0  # the default __format__ is str()

        def leaf(x, s):
            if s.h == "const" and s.a[0] == "" and conv in (0, ord("s")):
                if x.h == "const" and isinstance(x.a[0], str):
                    return x
                if self.kind_of(x) == "str":
                    return x
                given = st.heap.get((x, "args")) if x.h == "new" else None
                if given is not None and given.h == "tup" and len(given.a[0]) == 1:
                    ty = self.type_of(x)
                    if any("Exception" in y.ext_bases for y in ty[1].mro()) and ty[1].find("__str__") is None:
                        return self.format(given.a[0][0], s, conv, st)
                if x.h == "const" and isinstance(x.a[0], int) and not isinstance(x.a[0], bool):
                    return const(str(x.a[0]))
            return mk("format", x, s, conv)

        return lift(leaf, v, spec)

    def e_Starred(self, e, fr, st):
        raise Undecided("starred")

    def comprehension(self, gens, elt_fn, fr, st, kind):
        acc = self.new_container("list", EMPTY, st)
        names = set()
        for g in gens:
            names |= target_names(g.target)
        saved = {n: st.env[n] for n in names if n in st.env}
        for n in names:
            st.env.pop(n, None)

        def level(i, state):
            if i == len(gens):
                v = elt_fn(state)
                state.cont[acc] = concat([state.cont[acc], tup([v])])
                self.touch(state)
                return state
            g = gens[i]
            s = self.seq(self.ev(g.iter, fr, state), state, fr)

            def body(x, s2):
                self.assign(g.target, x, fr, s2)
                c = TRUE
                for f in g.ifs:
                    saved_pc = s2.pc
                    s2.pc = AND(s2.pc, c)
                    c = AND(c, self.truth(self.ev(f, fr, s2), s2, fr))
                    s2.pc = saved_pc
                c = constrain(c, s2.pc)
                if c is TRUE:
                    return level(i + 1, s2)
                if c is FALSE:
                    return s2
                a, b = s2.copy(), s2.copy()
                a.pc, b.pc = AND(s2.pc, c), AND(s2.pc, NOT(c))
                ra = level(i + 1, a) if a.pc is not FALSE else None
                return self.merge(c, ra, b if b.pc is not FALSE else None)

            r = self.iterate(s, body, names_of_gen(g), fr, state, g.iter)
            return r

        pc0 = st.pc
        r = level(0, st.copy())
        if r is None:
            raise Undecided("comprehension")
        res = r.cont.pop(acc) if acc in r.cont else EMPTY
        changed = r.heap != st.heap or any(
            st.cont.get(k) is not v for k, v in r.cont.items() if k is not acc
        )
        st.cont.pop(acc, None)
        if changed:
            st.heap = r.heap
            st.cont = {k: v for k, v in r.cont.items()}
            self.touch(st)
        for n in names:
            st.env.pop(n, None)
        st.env.update(saved)
        return res

    def e_ListComp(self, e, fr, st):
        c = self.comprehension(e.generators, lambda s: self.ev(e.elt, fr, s), fr, st, "list")
        return self.new_container("list", c, st)

    def e_SetComp(self, e, fr, st):
        c = self.comprehension(e.generators, lambda s: self.ev(e.elt, fr, s), fr, st, "set")
        return self.new_container("set", t.set_of(c), st)

    def e_GeneratorExp(self, e, fr, st):
        return self.comprehension(e.generators, lambda s: self.ev(e.elt, fr, s), fr, st, "gen")

    def e_DictComp(self, e, fr, st):
        c = self.comprehension(
            e.generators, lambda s: tup([self.ev(e.key, fr, s), self.ev(e.value, fr, s)]), fr, st, "dict"
        )
        return self.new_container("dict", t.dictcomp(c), st)

    def e_Yield(self, e, fr, st):
        v = NONE if e.value is None else self.ev(e.value, fr, st)
        st.cont[fr.yield_key] = concat([st.cont[fr.yield_key], tup([v])])
        self.touch(st)
        return NONE

    def e_YieldFrom(self, e, fr, st):
        v = self.seq(self.ev(e.value, fr, st), st, fr)
        st.cont[fr.yield_key] = concat([st.cont[fr.yield_key], v])
        self.touch(st)
        return NONE

    def e_Await(self, e, fr, st):
        raise Undecided("await")

    # -- calls --------------------------------------------------------------------------------

    def e_Call(self, e, fr, st):
        return self.ev_call(e, fr, st, discard=False)

    def ev_call(self, e, fr, st, discard):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            if not e.args:
                return mk("super", fr_self(fr, st), fr.cls.qual if fr.cls else "?")
            c = self.ev(e.args[0], fr, st)
            return mk("super", self.ev(e.args[1], fr, st), c.a[0])
        f = self.ev(e.func, fr, st)
        if f.h == "bound" and f.a[0].h == "ext" and f.a[0].a[0] == "$logger":
            return NONE
        pos, kws = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                pos.append(("star", self.seq(self.ev(a.value, fr, st), st, fr)))
            else:
                pos.append(("pos", self.ev(a, fr, st)))
        for k in e.keywords:
            kws.append((k.arg, self.ev(k.value, fr, st)))
        if self.draw_sites is None:
            return self.call(f, pos, kws, fr, st, discard, e)
        self.draw_sites.append("%d.%d" % (e.lineno, e.col_offset))
        try:
            return lift(self.at_site, self.call(f, pos, kws, fr, st, discard, e))
        finally:
            self.draw_sites.pop()

    def at_site(self, r):
        """Two draws from the same place of the program are one value only where they are made by the same call."""
        if r.h == "mcall" and r.a[1] in DRAWS and len(r.a) == 4:
            name, o, p, k = r.a[1], r.a[0], r.a[2], r.a[3]
        elif r.h == "call" and isinstance(r.a[0], tuple):
            return r
        elif r.h == "call" and len(r.a) == 3 and str(r.a[0]).rpartition(".")[2] in DRAWS:
            name, o, p, k = str(r.a[0]).rpartition(".")[2], NONE, r.a[1], r.a[2]
        else:
            return r
        if k or any(not isinstance(x, t.T) for x in p):
            return r
        return mk("draw", name, o, tuple(p), "/".join(self.draw_sites))

    def call(self, f, pos, kws, fr, st, discard=False, node=None):
        h = f.h
        if f is UNDEF or f is NONE:
            return UNDEF
        pos, kws = self.spread(pos, kws, st)
        if h == "ite":
            c = bool_atom(f.a[0])
            return self.branch_expr(
                c,
                lambda s: self.call(f.a[1], pos, kws, fr, s, discard, node),
                lambda s: self.call(f.a[2], pos, kws, fr, s, discard, node),
                st,
            )
        if h == "bound":
            return self.call_bound(f.a[0], f.a[1], pos, kws, fr, st, discard)
        if h == "clo":
            n, clo, cfr = self.closures[f]
            key = (id(n), "c")
            if self.unroll:
                key = (id(n), "c", cfr.self_, tuple(pos))
            if sum(1 for k, _ in self.callstack if k == key) > 0 or len(self.callstack) > MAX_DEPTH:
                return self.opaque_call(f, pos, kws, st, discard)
            return self.invoke(n, cfr.cls, cfr.self_, cfr.module, pos, kws, st, fr, key, clo)
        if h == "func":
            fn = self.funcs[f.a[0]]
            key = (id(fn.node), "f", tuple(pos)) if self.unroll else (id(fn.node), "f")
            if any(k == key for k, _ in self.callstack) or len(self.callstack) > MAX_DEPTH:
                return self.opaque_call(f, pos, kws, st, discard)
            return self.invoke(fn.node, None, None, fn.module, pos, kws, st, fr, key)
        if h == "cfunc":
            c = self.classes[f.a[0]]
            m = c.find(f.a[1])
            if m.kind == "static":
                return self.invoke(m.node, m.owner, None, m.owner.module, pos, kws, st, fr, (id(m.node), "m"))
            if m.kind == "class":
                return self.invoke(
                    m.node, m.owner, None, m.owner.module, [("pos", self.cls_term(c))] + pos, kws, st, fr, (id(m.node), "m")
                )
            if pos and pos[0][0] == "pos":
                key = (id(m.node), "m")
                if any(k == key for k, _ in self.callstack):
                    return self.opaque_call(f, pos, kws, st, discard)
                return self.invoke(m.node, m.owner, pos[0][1], m.owner.module, pos, kws, st, fr, key)
            return self.opaque_call(f, pos, kws, st, discard)
        if h == "class":
            return self.construct(self.classes[f.a[0]], pos, kws, fr, st)
        if h == "localclass":
            return self.opaque_call(self.frozen_class(f), pos, kws, st, discard)
        if h == "builtin":
            return self.builtin(f.a[0], pos, kws, fr, st, discard)
        if h == "ext":
            return self.extcall(f.a[0], pos, kws, fr, st, discard)
        if h == "partial":
            p0 = [("pos", x) for x in f.a[1]]
            k0 = [(k, v) for k, v in f.a[2]]
            return self.call(f.a[0], p0 + pos, k0 + kws, fr, st, discard)
        ty = self.type_of(f)
        if isinstance(ty, tuple) and ty[0] == "cls" and ty[1].find("__call__") is not None:
            return self.call_bound(f, "__call__", pos, kws, fr, st, discard)
        if h == "field":
            oty = self.type_of(f.a[0])
            if not (isinstance(oty, tuple) and oty[0] == "cls"):
                return self.call_bound(f.a[0], f.a[1], pos, kws, fr, st, discard)
        return self.opaque_call(f, pos, kws, st, discard)

    def spread(self, pos, kws, st):
        """Arguments with * and ** of known contents written out."""
        if any(k == "star" for k, _ in pos):
            out = []
            for k, v in pos:
                c = self.val(v, st) if k == "star" else v
                if k == "star" and c.h == "tup":
                    out.extend(("pos", x) for x in c.a[0])
                elif k == "star" and c.h == "concat":
                    for q in c.a[0]:
                        if q.h == "tup":
                            out.extend(("pos", x) for x in q.a[0])
                        else:
                            out.append(("star", q))
                else:
                    out.append((k, v))
            pos = out
        if any(n is None for n, _ in kws):
            out = []
            for n, v in kws:
                d = self.val(v, st) if n is None else v
                if n is None and d.h in ("dictv", "dmerge"):
                    for q in d.a[0] if d.h == "dmerge" else (d,):
                        if q.h == "dictv" and all(k.h == "const" for k, _ in q.a[0]):
                            out.extend((k.a[0], x) for k, x in q.a[0])
                        else:
                            out.append((None, q))
                else:
                    out.append((n, v))
            kws = out
        return pos, kws

    def canon_args(self, pos, kws, st):
        p = []
        for k, v in pos:
            v = self.freeze(v, st)
            p.append(v if k == "pos" else mk("star", v))
        kk = []
        for n, v in kws:
            if n is None:
                d = self.val(v, st)
                pieces = d.a[0] if d.h == "dmerge" else (d,)
                for q in pieces:
                    if q.h == "dictv":
                        for a, b in q.a[0]:
                            kk = [x for x in kk if x[0] != a.a[0]]
                            kk.append((a.a[0], self.freeze(b, st)))
                    else:
                        kk.append(("**" + q.key, self.freeze(q, st)))
            else:
                kk = [x for x in kk if x[0] != n]
                kk.append((n, self.freeze(v, st)))
        return tuple(p), tuple(sorted(kk, key=lambda x: x[0]))

    def freeze(self, v, st):
        """A callable or container as a comparable value."""
        if v.h == "localclass":
            return self.frozen_class(v)
        if v.h in ("clo", "bound", "cfunc") or (v.h == "ite" and any(l.h in ("clo", "bound", "cfunc") for l in t.leaves(v))):
            return lift(lambda x: self.eta(x, st) if x.h in ("clo", "bound", "cfunc") else x, v)
        c = self.val(v, st)
        if c is not v:
            return lift(t.by_key, c) if any(x.h == "dictv" for x in t.leaves(c)) else c
        return v

    def eta(self, f, st, n=1):
        """A callable as lam(n, body)."""
        try:
            if f.h == "clo":
                node = self.closures[f][0]
                n = len(node.args.args) - len(node.args.defaults)
                if node.args.vararg or node.args.kwarg or n == 0 or is_generator(node):
                    return mk("opaque", "closure", ast.dump(node))
            vs = [fresh("x") for _ in range(n)]
            s2 = st.copy()
            s2.pc = TRUE
            fr = Frame(None, None, None, None, len(self.callstack))
            r = self.call(f, [("pos", v) for v in vs], [], fr, s2)
            r = self.reify(r, s2)
            return mk("lam", n, t.close(r, vs))
        except Undecided:
            return mk("opaque", "callable", f.key)

    def ctor_of(self, f):
        """The class whose constructor signature a call of f follows, if known."""
        if f.h == "class":
            return self.classes.get(f.a[0])
        if f.h in ("tuned", "subclass"):
            return self.ctor_of(f.a[0])
        if f.h == "ite":
            cs = {self.ctor_of(l) for l in t.leaves(f)}
            return cs.pop() if len(cs) == 1 else None
        ty = self.type_of(f)
        if isinstance(ty, tuple) and ty[0] == "type" and isinstance(ty[1], tuple) and ty[1][0] == "cls":
            return ty[1][1]
        return None

    def opaque_call(self, f, pos, kws, st, discard):
        c = self.ctor_of(f)
        m = c.find("__init__") if c is not None else None
        if m is not None and pos and all(k == "pos" for k, _ in pos):
            ps = [q.arg for q in (m.node.args.posonlyargs + m.node.args.args)[1:]]
            if len(pos) <= len(ps):
                kws = [(n, v) for n, (_, v) in zip(ps, pos)] + list(kws)
                pos = []
        p, k = self.canon_args(pos, kws, st)
        r = mk("call", f, p, k)
        self.trace.append(("call", r, st.pc))
        if discard or is_effectful(f):
            self.event(self.reify(r, st), st)
        return r

    def construct(self, c, pos, kws, fr, st):
        if self.is_enum(c):
            return mk("call", self.cls_term(c), *self.canon_args(pos, kws, st))
        n = self.new(("cls", c, "exact"))
        m = c.find("__init__")
        if m is not None:
            self.invoke(
                m.node, m.owner, n, m.owner.module, [("pos", n)] + pos, kws, st, fr, (id(m.node), "i", n)
            )
        elif pos or kws:
            p, k = self.canon_args(pos, kws, st)
            st.heap = dict(st.heap)
            st.heap[(n, "$args")] = mk("args", p, k)
            self.touch(st)
        return n

    def call_bound(self, o, name, pos, kws, fr, st, discard=False):
        if o.h == "ite":
            c = bool_atom(o.a[0])
            return self.branch_expr(
                c,
                lambda s: self.call_bound(o.a[1], name, pos, kws, fr, s, discard),
                lambda s: self.call_bound(o.a[2], name, pos, kws, fr, s, discard),
                st,
            )
        if o is UNDEF or o is NONE:
            return UNDEF
        if o.h == "builtin" and o.a[0] == "dict" and name == "fromkeys" and not kws and 1 <= len(pos) <= 2 and (
                all(k == "pos" for k, _ in pos)):
            v = pos[1][1] if len(pos) == 2 else NONE
            pairs = lift(lambda s: self.map_seq(s, lambda x: tup([x, v])), self.seq(pos[0][1], st, fr))
            return self.new_container("dict", lift(t.dictcomp, pairs), st)
        if o.h == "super":
            return self.call_super(o, name, pos, kws, fr, st, discard)
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls":
            c = ty[1]
            exact = len(ty) > 2
            m = c.find(name)
            if m is not None and m.kind in ("method", "static", "class"):
                expand = (exact or not self.overridden(c, m)) and not m.abstract
                if self.is_boundary(c, name):
                    expand = False
                key = (id(m.node), "m", o, tuple(pos)) if self.unroll and o.h == "new" else (id(m.node), "m")
                if expand and (any(k == key for k, _ in self.callstack) or len(self.callstack) > MAX_DEPTH):
                    expand = False
                    CUT.add(name)
                if expand:
                    if self.strict_prims is not None and not fr_is_spec_member(m):
                        self.strict_prims.append("%s.%s" % (m.owner.name, m.name))
                    p = pos
                    if m.kind == "method":
                        p = [("pos", o)] + pos
                    elif m.kind == "class":
                        p = [("pos", self.cls_term(c))] + pos
                    return self.invoke(m.node, m.owner, o if m.kind == "method" else None, m.owner.module, p, kws, st, fr, key)
                return self.symcall(o, c, m, name, pos, kws, fr, st, discard)
            if m is not None and m.kind in ("property", "cached"):
                f = self.prop(o, c, exact, m, st, fr)
                return self.call(f, pos, kws, fr, st, discard)
            v = st.heap.get((o, name))
            if v is not None:
                return self.call(v, pos, kws, fr, st, discard)
            hc = c.find_const(name)
            if hc is not None:
                return self.call(self.const_expr(hc[0].module, hc[1], hc[0]), pos, kws, fr, st, discard)
        if o in self.rngs and not any(k == "star" for k, _ in pos) and all(n is not None for n, _ in kws):
            return self.drawn(o, name, pos, kws, st)
        if o.h == "dictof":
            return self.dictof_call(o, name, pos, kws, fr, st)
        if is_container_type(ty) or self.kind_of(o) in ("seq", "set", "str") or o.h in ("dictv", "dmerge", "kwrest", "dictset"):
            if not any(k == "star" for k, _ in pos):
                kk = {n: v for n, v in kws if n is not None}
                r = self.container_call(o, name, [v for _, v in pos], kk, fr, st)
                if r is not None:
                    return r
        if not any(k == "star" for k, _ in pos) and all(n is not None for n, _ in kws):
            r = self.file_call(o, name, [v for _, v in pos], dict(kws), ty, st)
            if r is not None:
                return r
        p, k = self.canon_args(pos, kws, st)
        if self.unroll and name == "choice" and len(p) == 1 and len(pos) == 1 and not kws:
            # no choice: a draw from one
            c = constrain(self.val(pos[0][1], st), st.pc)
            xs = [self.literal(x) for x in t.leaves(c)]
            if xs and all(x is not None and len(x) == 1 for x in xs):
                return lift(lambda x: self.literal(x)[0], c)
        r = mk("mcall", o, name, p, k)
        self.trace.append(("call", r, st.pc))
        if discard or name in EFFECT_METHODS:
            self.event(self.reify(r, st), st)
        return r

    # -- files --------------------------------------------------------------------------------

    def file_handle(self, path, mode, st):
        m = (mode.a[0] if t.is_const(mode) and isinstance(mode.a[0], str) else None) if mode is not None else "r"
        if m is None:
            return None
        m = m.replace("t", "")
        h = mk("handle", path, m)
        if m != "r":
            self.event(mk("openfile", path, m), st)
        return h

    def file_call(self, o, name, a, kw, ty, st):
        if o.h == "handle":
            p, m = o.a
            if m.startswith("r") and name == "readlines" and not a:
                r = mk("lines", p)
                self.types[r] = ("list", "str")
                return r
            if m.startswith("r") and name == "read" and not a:
                r = mk("filetext", p)
                self.types[r] = "str"
                return r
            if name == "close":
                return NONE
            if name == "writelines" and a:
                c = self.val(a[0], st)
                self.event(self.reify(mk("mcall", o, "write", (self.join(const(""), c),), ()), st), st)
                return NONE
            return None
        if isinstance(ty, tuple) and ty[0] == "cls":
            return None
        if name == "open" and o.h not in ("ext",):
            mode = a[0] if a else kw.get("mode")
            return self.file_handle(o, mode, st)
        if name == "read_text" and not a:
            r = mk("filetext", o)
            self.types[r] = "str"
            return r
        if name == "write_text" and a:
            h = self.file_handle(o, const("w"), st)
            self.event(self.reify(mk("mcall", h, "write", (self.freeze(a[0], st),), ()), st), st)
            return NONE
        return None

    def call_super(self, o, name, pos, kws, fr, st, discard):
        self_, qual = o.a
        if self.local_super and name == "__init__" and getattr(fr.cls, "local", False):
            p, k = self.canon_args(pos, kws, st)
            self.event(mk("superinit", self_, p, k), st)
            return NONE
        owner = self.classes.get(qual)
        if owner is None and fr.cls is not None:
            owner = fr.cls
        ty = self.type_of(self_)
        start = ty[1] if isinstance(ty, tuple) and ty[0] == "cls" else owner
        mro = start.mro()
        if owner not in mro:
            mro = owner.mro()
        for c in mro[mro.index(owner) + 1:]:
            if name in c.members:
                m = c.members[name]
                if m.kind in ("property", "cached"):
                    raise Undecided("super property")
                p = [("pos", self_)] + pos if m.kind == "method" else pos
                key = (id(m.node), "m")
                return self.invoke(m.node, m.owner, self_, m.owner.module, p, kws, st, fr, key)
        if name == "__init__":
            ext = [b for c in mro[mro.index(owner):] for b in c.ext_bases if b not in ("abc.ABC", "object", "ABC")]
            if ext == ["Exception"] and not kws and all(x[0] == "pos" for x in pos):
                st.heap[(self_, "args")] = tup([x[1] for x in pos])
                self.touch(st)
                return NONE
            if ext or getattr(owner, "dyn_bases", None):
                p, k = self.canon_args(pos, kws, st)
                self.event(mk("superinit", self_, p, k), st)
            return NONE
        p, k = self.canon_args(pos, kws, st)
        r = mk("mcall", mk("super", self_, owner.name), name, p, k)
        if discard:
            self.event(r, st)
        return r

    def symcall(self, o, c, m, name, pos, kws, fr, st, discard):
        """An uninterpreted call of a known signature, arguments in canonical (named) form."""
        a = m.node.args
        try:
            simple = not any(k == "star" for k, _ in pos) and all(n is not None for n, _ in kws)
            if simple:
                params = [p.arg for p in a.posonlyargs + a.args]
                if m.kind != "static":
                    params = params[1:]
                named = {}
                extra = []
                for i, (_, v) in enumerate(pos):
                    if i < len(params):
                        named[params[i]] = self.freeze(v, st)
                    else:
                        extra.append(self.freeze(v, st))
                for n, v in kws:
                    named[n] = self.freeze(v, st)
                defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults)) if a.defaults else {}
                for n, d in defaults.items():
                    if n in named and isinstance(d, ast.Constant) and const(d.value) is named[n]:
                        del named[n]
                names = tuple(sorted(named))
                ne = len(extra)
                if not discard and self.unroll:
                    o = self.snapshot(o, st)
                    extra = [self.snapshot(v, st) for v in extra]
                    named = {n: self.snapshot(v, st) for n, v in named.items()}

                def build(*xs):
                    return mk("mcall", xs[0], name, tuple(xs[1:ne + 1]), tuple(zip(names, xs[ne + 1:])))

                vals = (o,) + tuple(extra) + tuple(named[n] for n in names)
                try:
                    if o.h == "ite" and not self.unroll:
                        r = lift(lambda *xs: build(o, *xs), *vals[1:]) if len(vals) > 1 else build(o)
                    else:
                        r = lift(build, *vals)
                except t.TooBig:
                    r = build(*vals)
            else:
                r = mk("mcall", o, name, *self.canon_args(pos, kws, st))
        except Undecided:
            raise
        self.trace.append(("call", r, st.pc))
        if discard or name in EFFECT_METHODS:
            self.event(self.reify(r, st), st)
        return r

    def dictof_call(self, o, name, pos, kws, fr, st):
        if name == "pop" and pos:
            self.invalidate(o.a[0], pos[0][1], st)
            return mk("opaque", "cache-pop")
        if name == "clear":
            self.invalidate(o.a[0], const("*"), st)
            return NONE
        if name in ("get", "keys", "items", "values"):
            return mk("mcall", o, name, *self.canon_args(pos, kws, st))
        self.event(mk("mcall", o, name, *self.canon_args(pos, kws, st)), st)
        return NONE

    # -- reification --------------------------------------------------------------------------

    def snapshot(self, x, st):
        """Following shapes: a fresh object read through an uninterpreted member, as it looks now."""
        if not self.unroll:
            return x
        return self.split_reify(constrain(x, st.pc), st, st.pc, 0)

    def split_reify(self, x, st, pc, depth):
        if not any(y.h == "new" for y in t.subterms(x)):
            inner = next((y for y in t.subterms(x) if y.h == "ite"), None) if depth <= 12 else None
            if inner is None:
                return x
            c = bool_atom(inner.a[0])
            a, b = AND(pc, c), AND(pc, NOT(c))
            if a is FALSE or b is FALSE:
                y = constrain(x, b if a is FALSE else a)
                return x if y is x else self.split_reify(y, st, pc, depth + 1)
            return ite(c, self.split_reify(constrain(x, a), st, a, depth + 1), self.split_reify(constrain(x, b), st, b, depth + 1))
        # what hangs on what depends on earlier choices: one picture per choice
        seen, todo = set(), [x]
        heap, cont = {}, {}
        fields = {}
        for (o, f), v in st.heap.items():
            if not f.startswith("@"):
                fields.setdefault(o, []).append((f, v))
        while todo:
            for y in t.subterms(todo.pop()):
                if y.h == "new" and y not in seen:
                    seen.add(y)
                    if y in st.cont:
                        cont[y] = constrain(st.cont[y], pc)
                        todo.append(cont[y])
                    for f, v in fields.get(y, ()):
                        heap[(y, f)] = constrain(v, pc)
                        todo.append(heap[(y, f)])
        split = None
        for v in [x] + list(heap.values()) + list(cont.values()):
            for y in t.subterms(v):
                if y.h == "ite":
                    split = y.a[0]
                    break
            if split is not None:
                break
        s2 = st.copy()
        s2.heap, s2.cont = dict(st.heap), dict(st.cont)
        s2.heap.update(heap)
        s2.cont.update(cont)
        if split is None:
            return self.reify(x, s2)
        if depth > 12:
            raise Undecided("too many pictures")
        c = bool_atom(split)
        a, b = AND(pc, c), AND(pc, NOT(c))
        if a is FALSE:
            return self.split_reify(constrain(x, b), s2, b, depth + 1)
        if b is FALSE:
            return self.split_reify(constrain(x, a), s2, a, depth + 1)
        return ite(c, self.split_reify(constrain(x, a), s2, a, depth + 1), self.split_reify(constrain(x, b), s2, b, depth + 1))

    def reify_new(self, x, st, nid):
        """Replace objects allocated after nid by their value."""
        return self.reify(x, st, nid)

    def frozen_class(self, f):
        """A locally defined class, by what it is: its bases and what its constructor does."""
        c, env, cfr = self.closures[f]
        bases = [self.cls_term(b) for b in c.bases] + list(getattr(c, "dyn_bases", []))
        members = {n: m for n, m in c.members.items() if m.owner is c}
        if len(bases) != 1 or set(members) - {"__init__"} or c.consts:
            return mk("opaque", "localclass", c.name)
        if not members:
            return bases[0]
        m = members["__init__"]
        o = mk("var", "$instance")
        self.types[o] = ("cls", c, "exact")
        pa, pk = mk("var", "*$a"), mk("var", "**$k")
        self.types[pa] = ("list", None)
        self.types[pk] = ("dict", "str", None)
        st = State()
        st.heap, st.cont = dict(self.class_state[f][0]), dict(self.class_state[f][1])
        st.cont[EVENTS] = EMPTY
        flag, self.local_super = self.local_super, True
        try:
            self.invoke(m.node, c, o, cfr.module, [("pos", o), ("star", pa)], [(None, pk)], st, cfr,
                        (id(m.node), "i", f), (env, cfr.closure))
        finally:
            self.local_super = flag
        ev = st.cont.get(EVENTS, EMPTY)
        if any(k[0] is o for k in st.heap) or ev.h != "tup" or len(ev.a[0]) != 1 or ev.a[0][0].h != "superinit":
            return mk("opaque", "localclass", c.name)
        _, p, k = ev.a[0][0].a
        if p[:1] == (mk("star", pa),) and len(p) == 1:
            rest = [x for x in k if x[1] is not pk]
            if len(rest) == len(k) - 1:
                return mk("tuned", bases[0], tuple(rest))
        return mk("subclass", bases[0], p, k)

    local_super = False

    def reify(self, x, st, nid=0):
        if not any(y.h in ("new", "clo", "bound", "cfunc", "localclass") for y in t.subterms(x)):
            return x
        visiting = {}

        def go(y):
            if y.h == "new" and y.a[0] > nid:
                if y in visiting:
                    return mk("cyc", len(visiting) - visiting[y])
                visiting[y] = len(visiting)
                try:
                    ty = self.news[y.a[0]]
                    if is_container_type(ty):
                        c = st.cont.get(y, EMPTY)
                        return walk(lift(t.by_key, c) if ty[0] == "dict" else c)
                    fields = []
                    for (o, f), v in st.heap.items():
                        if o is y and not f.startswith("@"):
                            fields.append((f, walk(v)))
                    fields.sort(key=lambda p: p[0])
                    return mk("obj", ty[1].qual, tuple(fields))
                finally:
                    del visiting[y]
            if y.h in ("clo", "bound", "cfunc") and nid == 0:
                return self.eta(y, st)
            if y.h == "localclass":
                return walk(self.frozen_class(y))
            return None

        def walk(z):
            return t._walk(z, 0, lambda y, d: go(y))

        return walk(x)

    # -- entry points -------------------------------------------------------------------------

    def summary(self, node, cls, module, args=None, exact=True, self_name="self", kind="method", nparams=None,
                ptypes=None, instance=False, self_term=None, novar=False, nokw=False):
        """Summary of a function evaluated on symbolic arguments."""
        self._install()
        t.expand[0] = bool(self.unroll)
        t.budget(self.max_terms, self.max_seconds)
        st = State()
        fr = Frame(node, cls, None, module, 0)
        a = node.args
        env = {}
        params = a.posonlyargs + a.args
        off = 1 if cls is not None and kind != "static" else 0
        nd = len(params) - len(a.defaults)
        dfr = Frame(None, cls, None, module, 0)
        for i, p in enumerate(params + a.kwonlyargs):
            if i < len(params):
                v = mk("var", "$%d" % (i + 1 - off))
                if nparams is not None and i - off >= nparams and i >= nd:
                    env[p.arg] = self.ev(a.defaults[i - nd], dfr, State())
                    continue
            else:
                v = mk("var", p.arg)
                d = a.kw_defaults[i - len(params)]
                if nparams is not None and d is not None:
                    env[p.arg] = self.ev(d, dfr, State())
                    continue
            if i == 0 and cls is not None and kind not in ("static",):
                if kind == "class":
                    v = self.cls_term(cls)
                elif instance:
                    v = self.construct(cls, [], [], dfr, st)
                    fr.self_ = v
                elif self_term is not None:
                    v = self_term
                    self.types[v] = ("cls", cls, "exact")
                    fr.self_ = v
                else:
                    v = mk("var", "self")
                    self.types[v] = ("cls", cls, "exact") if exact else ("cls", cls)
                    fr.self_ = v
            else:
                ty = (ptypes or {}).get(v.a[0]) or self.ix.type_of_ann(module, p.annotation)
                if ty is not None:
                    self.types[v] = ty
                else:
                    self.types.pop(v, None)
                if args and v.a[0] in args:
                    v = args[v.a[0]]
            env[p.arg] = v
        if a.vararg is not None and novar:
            env[a.vararg.arg] = EMPTY
        elif a.vararg is not None:
            v = mk("var", "*args")
            self.types[v] = ("list", self.ix.type_of_ann(module, a.vararg.annotation) if a.vararg.annotation else None)
            self.nullable.add(v)
            env[a.vararg.arg] = v
        if a.kwarg is not None and nokw:
            env[a.kwarg.arg] = self.new_container("dict", mk("dictv", ()), st)
        elif a.kwarg is not None:
            v = mk("var", "**kwargs")
            self.types[v] = ("dict", "str", None)
            env[a.kwarg.arg] = v
        st.env = env
        st.pc = TRUE
        top = Frame(None, cls, None, module, 0)
        self.callstack = [((id(node), {"property": "p", "cached": "p"}.get(kind, "m")), node)]
        self.inlined = set()
        self.inlined.add((module.rel, node.name, node.lineno))
        self.loop_log = []
        self.trace = []
        self.memo = {}
        fr.self_ = env.get(params[0].arg) if params and cls is not None and kind not in ("static",) else None
        try:
            v = self.run_body(node, fr, st, top, TRUE)
        finally:
            self.callstack = []
            t.budget()
        r = Summary()
        r.node = node
        r.state = st
        r.self_ = fr.self_
        r.where = "%s:%d %s%s" % (module.rel, node.lineno, (cls.name + ".") if cls else "", node.name)
        r.ret = self.reify(v, st) if isinstance(v, T) else v
        r.raw_ret = v
        r.settle = lambda x, st=st: self.reify(x, st)
        for (o, f), w in st.heap.items():
            if o.h != "new":
                r.writes[(o, f)] = self.reify(w, st)
        for c, w in st.cont.items():
            if c.h == "new" or c.h == "acc":
                continue
            r.conts[c] = self.reify(w, st)
        r.events = self.reify(st.cont.get(EVENTS, EMPTY), st)
        r.inval = self.reify(st.cont.get(INVAL, EMPTY), st)
        r.qwrites = self.reify(st.cont.get(QW, EMPTY), st)
        r.raises = [(e.pc, e.value) for e in top.exits if e.kind == "raise"]
        # raises recorded on the function's own frame
        r.raises += [(e.pc, e.value) for e in fr.exits if e.kind == "raise" and e not in top.exits]
        seen = []
        for x in r.raises:
            if x not in seen:
                seen.append(x)
        r.raises = seen
        r.loops = self.loop_log
        r.trace = self.trace
        r.inlined = set(self.inlined)
        return r


class LoopInfo:
    __slots__ = ("node", "part", "phi", "upd", "final", "exits", "qw", "st", "fr")

    def __init__(self, node, part, phi, upd, final, exits, qw, st, fr):
        self.node = node
        self.part = part
        self.phi = phi
        self.upd = upd
        self.final = final
        self.exits = exits
        self.qw = qw
        self.st = st
        self.fr = fr


NEUTRAL = {
    "add": ZERO, "str": const(""), "concat": EMPTY, "union": EMPTY, "diff": EMPTY,
    "max": t.NINF, "min": t.INF, "dict": EMPTY,
}

EXT_ALIAS = {}
EFFECT_METHODS = {
    "write", "writelines", "flush", "close", "open", "store", "solve", "optimize", "improve", "shuffle", "randint",
    "choice", "sample", "random", "seed", "append", "add", "extend", "insert", "update", "remove", "discard", "clear",
    "popitem", "sort", "savefig", "show", "add_nodes_from", "add_edges_from", "write_text", "setdefault",
}


def is_effectful(f):
    return f.h in ("builtin", "ext") and f.a[0] in ("print", "open", "setattr", "delattr", "exec", "eval", "input", "next")


def fr_self(fr, st):
    if fr.self_ is not None:
        return fr.self_
    for v in st.env.values():
        return v
    return UNDEF


def fr_is_spec_member(m):
    return getattr(m.owner, "is_spec", False)


def merge_pieces(items):
    return items


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.GeneratorExp,)):
            pass
        stack.extend(ast.iter_child_nodes(n))
    return False


def target_names(tg):
    return {n.id for n in ast.walk(tg) if isinstance(n, ast.Name)}


def names_of_gen(g):
    return target_names(g.target)


def assigned(body):
    out = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out |= assigned_expr(n)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        stack.extend(ast.iter_child_nodes(n))
    return out


def assigned_expr(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def load(tg):
    n = ast.parse(ast.unparse(tg), mode="eval").body
    ast.copy_location(n, tg)
    for x in ast.walk(n):
        ast.copy_location(x, tg)
    return n


def norm_spec(s):
    return s

"""Models of builtins, of the standard library functions the repository uses, and of container methods."""
from __future__ import annotations

import ast
import itertools
import math

from . import terms as t
from .terms import (
    AND, EMPTY, FALSE, NONE, NOT, ONE, OR, TRUE, UNDEF, ZERO,
    T, as_bool, bool_atom, comp_of, concat, const, constrain, elem, fresh, ite, length, lift, mk, num, tup,
)

TYPE_NAMES = {"int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "object", "type"}

OPERATORS = {
    "operator.add": "Add", "operator.sub": "Sub", "operator.mul": "Mult", "operator.truediv": "Div",
    "operator.and_": "BitAnd", "operator.or_": "BitOr", "operator.xor": "BitXor", "operator.mod": "Mod",
    "operator.floordiv": "FloorDiv", "operator.pow": "Pow", "operator.concat": "Add",
}
COMPARES = {
    "operator.lt": "Lt", "operator.le": "LtE", "operator.gt": "Gt", "operator.ge": "GtE",
    "operator.eq": "Eq", "operator.ne": "NotEq", "operator.is_": "Is", "operator.is_not": "IsNot",
}

EXT_CONSTANTS = {
    "pulp.LpMinimize": num(1), "pulp.LpMaximize": num(-1), "pulp.LpBinary": const("Binary"),
    "pulp.LpInteger": const("Integer"), "pulp.LpContinuous": const("Continuous"),
}


FILTER_NAMES = ("|f", "|s", "|x")
FILTER = ast.GeneratorExp(ast.Name("|x", ast.Load()), [ast.comprehension(
    ast.Name("|x", ast.Store()), ast.Name("|s", ast.Load()),
    [ast.Call(ast.Name("|f", ast.Load()), [ast.Name("|x", ast.Load())], [])], 0)])
ast.fix_missing_locations(FILTER)


class Library:
    """Mixin of Engine."""

    # -- helpers ------------------------------------------------------------------------------

    def plain(self, pos):
        return [v for k, v in pos] if not any(k == "star" for k, _ in pos) else None

    def kwd(self, kws):
        return {n: v for n, v in kws if n is not None} if all(n is not None for n, _ in kws) else None

    def apply(self, f, args, fr, st):
        return self.call(f, [("pos", a) for a in args], [], fr, st)

    def pure(self, f, args, fr, st):
        """f(args) on a copy of the state."""
        s = st.copy()
        s.pc = TRUE
        r = self.apply(f, args, fr, s)
        return self.reify(r, s, self.nid_mark) if r.h == "new" else r

    nid_mark = 0

    def mapped(self, seq, fn):
        return lift(lambda s: self._mapped(s, fn), seq)

    def _mapped(self, s, fn):
        out = []
        for p in t.parts_of(s):
            out.append(comp_of(p.vs, p.spaces, p.cond, fn(p.elem)))
        return concat(out)

    def filtered(self, seq, fn):
        def one(s):
            out = []
            for p in t.parts_of(s):
                out.append(comp_of(p.vs, p.spaces, AND(p.cond, fn(p.elem)), p.elem))
            return concat(out)

        return lift(one, seq)

    def listed(self, x, st, fr):
        return self.seq(x, st, fr)

    def keyfn(self, key, fr, st):
        """A key/predicate callable as lam (None for identity)."""
        if key is None or key is NONE:
            return NONE
        k = self.eta(key, st, 1) if key.h in ("clo", "bound", "cfunc", "func", "partial", "ext", "builtin", "ite") and not (
            key.h == "ite" and not any(l.h in ("clo", "bound", "cfunc", "func") for l in t.leaves(key))
        ) else key
        return k

    # -- builtins -----------------------------------------------------------------------------

    def builtin(self, name, pos, kws, fr, st, discard=False):
        a = self.plain(pos)
        kw = self.kwd(kws)
        f = getattr(self, "b_" + name, None)
        if a is None and name in ("zip", "chain", "print", "max", "min"):
            pass
        if f is None or a is None or kw is None:
            return self.opaque_call(mk("builtin", name), pos, kws, st, discard)
        r = f(a, kw, fr, st)
        if r is None:
            return self.opaque_call(mk("builtin", name), pos, kws, st, discard)
        return r

    def b_open(self, a, kw, fr, st):
        path = a[0] if a else kw.get("file")
        if path is None:
            return None
        return self.file_handle(path, a[1] if len(a) > 1 else kw.get("mode"), st)

    def b_len(self, a, kw, fr, st):
        if len(a) != 1:
            return None
        o = a[0]
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls" and ty[1].find("__len__") is not None:
            return self.call_bound(o, "__len__", [], [], fr, st)
        return lift(length, self.val(o, st))

    def b_sum(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)
        start = self.val(start, st)
        if self.kind_of(start) == "seq":
            if self.unroll and all(self.literal(x) is not None for x in t.leaves(s)):
                return self.new_container("list", concat([start, self.flatten_seq(s, st, fr)]), st)
            return None
        return t.add2(start, lift(t.sum_of, s))

    def b_any(self, a, kw, fr, st):
        return lift(t.exists, self.seq(a[0], st, fr))

    def b_all(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        xs = self.literal(s) if self.unroll else None
        if xs is not None and len(xs) > 60:
            return t.conj(xs)
        return lift(t.forall, self.seq(a[0], st, fr))

    def b_max(self, a, kw, fr, st):
        return self.extremum("max", a, kw, fr, st)

    def b_min(self, a, kw, fr, st):
        return self.extremum("min", a, kw, fr, st)

    def extremum(self, op, a, kw, fr, st):
        key = kw.get("key")
        if len(a) >= 2:
            if key is not None and key is not NONE:
                s = tup(a)
            else:
                vals = [self.val(x, st) for x in a]
                if self.unroll and len(vals) == 2 and not any(self.kind_of(v) in ("seq", "str", "set") for v in vals):
                    # what is known here may tell which one it is
                    one, two = vals if op == "min" else reversed(vals)
                    c = constrain(t.le(one, two), st.pc)
                    if c is TRUE or c is FALSE:
                        return vals[0] if c is TRUE else vals[1]
                return self.minmax_vals(op, vals)
        else:
            s = self.seq(a[0], st, fr)
        k = self.keyfn(key, fr, st)
        default = kw.get("default")

        def one(x):
            if k is NONE:
                ty = self.elem_type(x)
                if x.h == "tup" and x.a[0]:
                    return self.minmax_vals(op, list(x.a[0]))
                if isinstance(ty, tuple):
                    return mk("argbest", op, self.unordered(x), NONE)
                r = self.agg(op, x)
            elif self.unroll and self.literal(x) is not None and 0 < len(self.literal(x)) <= 6:
                x = tup(self.literal(x))
                # few enough to look at one by one: the first of the best
                r = x.a[0][0]
                kr = self.call(key, [("pos", r)], [], fr, st)
                for y in x.a[0][1:]:
                    ky = self.call(key, [("pos", y)], [], fr, st)
                    c = as_bool(self.compare("Gt" if op == "max" else "Lt", ky, kr, st, fr))
                    r, kr = ite(c, y, r), ite(c, ky, kr)
            else:
                r = mk("argbest", op, x, k)
            if default is None:
                if x.h == "tup" and not x.a[0]:
                    return UNDEF
                return r
            return ite(t.nonempty(x), r, default)

        return lift(one, s)

    def literal(self, x):
        """The elements of an enumerated list or set, in the order they were put there."""
        if x.h == "set":
            x = x.a[0]
        return x.a[0] if x.h == "tup" else None

    def unordered(self, x):
        return x

    def minmax_vals(self, op, vals):
        if any(self.kind_of(v) in ("seq", "str", "set") for v in vals):
            return mk("argbest", op, tup(vals), NONE)
        return t.minmax(op, vals)

    def b_range(self, a, kw, fr, st):
        if self.unroll and not kw and all(x.h != "ite" for x in a):
            # as many numbers as the unrolling allows, although where they start is open
            lo, hi = (ZERO, a[0]) if len(a) == 1 else a[:2]
            step = a[2].a[0] if len(a) == 3 and t.is_num_const(a[2]) else 1 if len(a) < 3 else None
            d = t.sub(hi, lo)
            if t.is_num_const(d) and step in (1, -1) and abs(d.a[0]) <= self.unroll:
                return tup([t.add2(lo, num(i)) for i in range(0, int(d.a[0]), step)])
        if len(a) == 1:
            return t.range_(ZERO, a[0])
        if len(a) == 2:
            return t.range_(a[0], a[1])
        if t.is_num_const(a[2]):
            if a[2].a[0] == 1:
                return t.range_(a[0], a[1])
            if a[2].a[0] == -1:
                return mk("reversed", t.range_(t.add2(a[1], ONE), t.add2(a[0], ONE)))
        return mk("range3", *a)

    def b_enumerate(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        start = a[1] if len(a) > 1 else kw.get("start", ZERO)

        def one(x):
            if self.literal(x) is not None:
                return tup([tup([t.add2(start, num(i)), y]) for i, y in enumerate(self.literal(x))])
            i = fresh("i")
            self.types[i] = "int"
            self.types[("idx", i)] = True
            return comp_of([i], [t.range_(ZERO, length(x))], TRUE, tup([t.add2(start, i), elem(x, i)]))

        return lift(one, s)

    def b_zip(self, a, kw, fr, st):
        ss = [self.seq(x, st, fr) for x in a]

        def one(*xs):
            if not xs:
                return EMPTY
            if all(x.h == "tup" for x in xs):
                n = min(len(x.a[0]) for x in xs)
                return tup([tup([x.a[0][i] for x in xs]) for i in range(n)])
            ln = t.minmax("min", [length(x) for x in xs])
            i = fresh("i")
            self.types[i] = "int"
            self.types[("idx", i)] = True
            return comp_of([i], [t.range_(ZERO, ln)], TRUE, tup([elem(x, i) for x in xs]))

        return lift(one, *ss)

    def b_reversed(self, a, kw, fr, st):
        return self.reversed_(self.seq(a[0], st, fr))

    def b_sorted(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        k = self.keyfn(kw.get("key"), fr, st)
        rev = as_bool(kw.get("reverse", FALSE))
        c = lift(lambda x: self.sort_term(x, k, rev, kw.get("key"), fr, st), s)
        return self.new_container("list", c, st)

    def decided(self, c, pc):
        """A comparison, where the comparisons of the path settle it."""
        c = constrain(c, pc)
        if c.h != "ite" or c.a[0].h not in ("le", "lt", "eq0"):
            return c
        from .spec import possible
        known = []
        while pc.h == "ite" and FALSE in (pc.a[1], pc.a[2]):
            v = pc.a[2] is FALSE
            known.append((pc.a[0], v))
            pc = pc.a[1] if v else pc.a[2]
        for v in (True, False):
            if not possible(known + [(c.a[0], v)]):
                return c.a[2] if v else c.a[1]
        return c

    def sort_term(self, x, k, rev, key, fr, st):
        if x.h == "set" and self.unroll and x.a[0].h == "tup":
            x = x.a[0]
        if x.h == "sorted" and (key is None or key is NONE):
            x = x.a[0]  # the values alone decide their order
        if x.h == "tup" and len(x.a[0]) <= 1:
            return x
        if x.h == "tup" and (key is None or key is NONE) and t.is_const(rev) and all(t.is_num_const(y) for y in x.a[0]):
            return tup(sorted(x.a[0], key=lambda y: y.a[0], reverse=rev is TRUE))
        if (self.unroll and x.h == "tup" and len(x.a[0]) <= 6 and key is not None and key is not NONE and t.is_const(rev)):
            # few enough to place one by one; equals stay in order
            rank = [self.call(key, [("pos", y)], [], fr, st) for y in x.a[0]]

            def place(ys, y):
                if not ys:
                    return tup([y])
                c = as_bool(self.compare("Gt" if rev is TRUE else "Lt", lift(lambda z: rank[z.a[0]], y), lift(lambda z: rank[z.a[0]], ys[-1]), st, fr))
                c = self.decided(c, st.pc)
                if c is FALSE:
                    return tup(list(ys) + [y])
                return ite(c, lift(lambda z: tup(list(z.a[0]) + [ys[-1]]), place(ys[:-1], y)), tup(list(ys) + [y]))

            r = tup([])
            for i in range(len(x.a[0])):
                r = lift(lambda ys: place(ys.a[0], num(i)), r)
            return lift(lambda ys: tup([lift(lambda z: x.a[0][z.a[0]], y) for y in ys.a[0]]), r)
        if t.is_const(rev):
            return mk("sorted", x, k, rev)
        return ite(rev, mk("sorted", x, k, TRUE), mk("sorted", x, k, FALSE))

    def b_map(self, a, kw, fr, st):
        if len(a) < 2:
            return None
        if len(a) > 2:
            z = self.b_zip(a[1:], {}, fr, st)
            n = len(a) - 1
            return self.each(z, lambda x, s: self.apply(a[0], [elem(x, num(i)) for i in range(n)], fr, s), fr, st)
        s = self.seq(a[1], st, fr)
        return self.each(s, lambda x, s_: self.apply(a[0], [x], fr, s_), fr, st)

    def each(self, s, fn, fr, st):
        """[fn(x) for x in s] with effects."""
        acc = self.new_container("list", EMPTY, st)

        def body(x, state):
            v = fn(x, state)
            state.cont[acc] = concat([state.cont[acc], tup([v])])
            self.touch(state)
            return state

        r = self.iterate(s, body, set(), fr, st, ast.Pass())
        if r is None:
            return UNDEF
        res = r.cont.pop(acc, EMPTY)
        st.heap, st.cont, st.version, st.pc = r.heap, r.cont, r.version, r.pc
        st.cont.pop(acc, None)
        return res

    def b_filter(self, a, kw, fr, st):
        if a[0] is not NONE and not kw and len(a) == 2:
            # one by one, in order: asking about one may have effects
            saved = {n: st.env[n] for n in FILTER_NAMES if n in st.env}
            st.env["|f"], st.env["|s"] = a
            r = self.ev(FILTER, fr, st)
            for n in FILTER_NAMES:
                st.env.pop(n, None)
            st.env.update(saved)
            return r
        s = self.seq(a[1], st, fr)

        def pred(x):
            v = x if a[0] is NONE else self.pure(a[0], [x], fr, st)
            return self.truth(v, st, fr)

        return self.filtered(s, pred)

    def b_set(self, a, kw, fr, st):
        c = t.set_of(EMPTY) if not a else lift(t.set_of, self.seq(a[0], st, fr))
        return self.new_container("set", c, st)

    def b_frozenset(self, a, kw, fr, st):
        return t.set_of(EMPTY) if not a else lift(t.set_of, self.seq(a[0], st, fr))

    def b_list(self, a, kw, fr, st):
        s = EMPTY if not a else self.seq(a[0], st, fr)
        return self.new_container("list", s, st)

    def b_tuple(self, a, kw, fr, st):
        return EMPTY if not a else self.seq(a[0], st, fr)

    def b_iter(self, a, kw, fr, st):
        return self.seq(a[0], st, fr) if len(a) == 1 else None

    def b_dict(self, a, kw, fr, st):
        pieces = []
        if a:
            v = self.val(a[0], st)
            ty = self.type_of(v)
            if v.h in ("dictv", "dmerge", "dictset", "dictcomp", "kwrest") or isinstance(ty, tuple) and ty[0] == "dict":
                pieces.append(v)
            else:
                pieces.append(t.dictcomp(self.seq(a[0], st, fr)))
        if kw:
            pieces.append(mk("dictv", tuple((const(k), kw[k]) for k in sorted(kw))))
        return self.new_container("dict", self.dmerge(pieces), st)

    def b_next(self, a, kw, fr, st):
        o = a[0]
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls" and ty[1].find("__next__") is not None:
            if self.unroll and len(a) > 1:
                return self.next_or(o, a[1], fr, st)
            return self.call_bound(o, "__next__", [], [], fr, st)
        if self.kind_of(self.val(o, st)) not in ("seq", "set"):
            return None
        s = self.seq_of(self.val(o, st), st, fr)
        if len(a) > 1:
            if self.unroll and o in self.generators:
                self.set_cont(o, lift(lambda x: t.slice_(x, ONE, NONE) if x is not EMPTY else x, s), st)
            return lift(lambda x: ite(t.nonempty(x), self.first_of(x), a[1]), s)
        if self.unroll:
            ne = constrain(lift(t.nonempty, s), st.pc)
            if ne is not TRUE:
                fr.exits.append(self.make_exit(
                    "raise", AND(st.pc, NOT(ne)), mk("call", mk("builtin", "StopIteration"), (), ()), st.copy()))
                st.pc = AND(st.pc, ne)
                if st.pc is FALSE:
                    return UNDEF
                s = constrain(s, ne)
            if o in self.generators:
                self.set_cont(o, lift(lambda x: t.slice_(x, ONE, NONE), s), st)
        return self.first_of(s)

    def next_or(self, o, default, fr, st):
        """next(o, default) of an iterator object: its StopIteration stays inside."""
        n0 = len(fr.exits)
        env = dict(st.env)
        r = self.call_bound(o, "__next__", [], [], fr, st)
        rest = fr.exits[:n0]
        for e in fr.exits[n0:]:
            if e.kind == "raise" and self.raised_class(e.value) == "StopIteration":
                b = e.state.copy()
                b.env, b.pc = dict(env), e.pc
                r = ite(e.pc, default, r) if r is not UNDEF else default
                m = self.merge(e.pc, b, st if st.pc is not FALSE else None)
                st.env, st.heap, st.cont, st.version, st.pc = m.env, m.heap, m.cont, m.version, m.pc
            else:
                rest.append(e)
        fr.exits[:] = rest
        return r

    def b_isinstance(self, a, kw, fr, st):
        return self.isinstance_(a[0], self.val(a[1], st))

    def isinstance_(self, o, c):
        def leaf(x, k):
            if k.h == "tup":
                return OR(*[leaf(x, y) for y in k.a[0]])
            if x is NONE:
                return FALSE
            ty = self.type_of(x)
            if k.h == "class":
                cls = self.classes[k.a[0]]
                if isinstance(ty, tuple) and ty[0] == "cls":
                    if ty[1].is_subclass(cls):
                        return TRUE
                    if len(ty) > 2:
                        return FALSE
                    if self.class_relation(ty[1].qual, cls.qual) is False:
                        return FALSE
                elif ty is not None:
                    return FALSE
                return bool_atom(mk("isinstance", x, k.a[0]))
            if k.h == "builtin":
                n = k.a[0]
                if x.h == "const":
                    v = x.a[0]
                    m = {"int": int, "float": float, "str": str, "bool": bool}.get(n)
                    if m is not None:
                        return const(isinstance(v, m))
                if ty == "str":
                    return const(n in ("str", "object"))
                if x.h == "new" and x not in self.generators and self.news[x.a[0]][0] in ("list", "set", "dict") and n in TYPE_NAMES:
                    return const(n in (self.news[x.a[0]][0], "object"))
                if n == "bool" and x.h in ("poly", "max", "min", "sum", "lpvar"):
                    return FALSE
                if ty in ("num", "int", "bool") and n in ("str", "list", "dict", "set", "tuple"):
                    return FALSE
                if isinstance(ty, tuple) and ty[0] == "cls" and not ty[1].ext_bases and n in TYPE_NAMES:
                    return const(n == "object")
                return bool_atom(mk("isinstance", x, n))
            if k.h == "ext":
                return bool_atom(mk("isinstance", x, k.a[0]))
            return bool_atom(mk("bool", "isinstance", x, k))

        return lift(leaf, o, c)

    def b_issubclass(self, a, kw, fr, st):
        if a[0].h == "class" and a[1].h == "class":
            return const(self.classes[a[0].a[0]].is_subclass(self.classes[a[1].a[0]]))
        return None

    def b_int(self, a, kw, fr, st):
        if not a:
            return ZERO
        if len(a) != 1:
            return None

        def leaf(x):
            if x.h == "const" and isinstance(x.a[0], (int, float)) and math.isfinite(x.a[0]):
                return num(int(x.a[0]))
            if t.int_poly(x) and self.kind_of(x) == "num":
                return x
            return mk("int", x)

        return lift(leaf, a[0])

    def b_float(self, a, kw, fr, st):
        if not a:
            return ZERO

        def leaf(x):
            if x.h == "const" and isinstance(x.a[0], str):
                try:
                    return num(float(x.a[0]))
                except ValueError:
                    pass
            if self.kind_of(x) == "num":
                return x
            return mk("float", x)

        return lift(leaf, a[0])

    def b_str(self, a, kw, fr, st):
        if not a:
            return const("")
        return self.format(self.val(a[0], st), const(""), ord("s"), st)

    def b_repr(self, a, kw, fr, st):
        return self.format(self.val(a[0], st), const(""), ord("r"), st)

    def b_format(self, a, kw, fr, st):
        return self.format(self.val(a[0], st), a[1] if len(a) > 1 else const(""), 0, st)

    def b_bool(self, a, kw, fr, st):
        return FALSE if not a else self.truth(a[0], st, fr)

    def b_abs(self, a, kw, fr, st):
        def leaf(x):
            if t.is_num_const(x):
                return num(abs(x.a[0]))
            return t.minmax("max", [x, t.neg(x)])

        return lift(leaf, a[0])

    def b_pow(self, a, kw, fr, st):
        return self.power(a[0], a[1]) if len(a) == 2 else None

    def b_round(self, a, kw, fr, st):
        def leaf(*x):
            if len(x) == 1 and x[0].h == "const" and isinstance(x[0].a[0], (int, float)) and math.isfinite(x[0].a[0]):
                return num(round(x[0].a[0]))
            return mk("round", *x)

        return lift(leaf, *a)

    def b_hash(self, a, kw, fr, st):
        o = a[0]
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] == "cls":
            m = ty[1].find("__hash__")
            if m is not None:
                return self.call_bound(o, "__hash__", [], [], fr, st)
        return mk("hash", self.val(o, st))

    def b_id(self, a, kw, fr, st):
        return mk("id", a[0])

    def b_type(self, a, kw, fr, st):
        return lift(self.classof, a[0]) if len(a) == 1 else None

    def b_getattr(self, a, kw, fr, st):
        if a[1].h == "const" and isinstance(a[1].a[0], str):
            return self.attr(a[0], a[1].a[0], st, fr)
        return lift(lambda o, n: mk("getattr", o, n) if n.h != "const" else self.attr(o, n.a[0], st, fr), a[0], a[1])

    def b_hasattr(self, a, kw, fr, st):
        if a[1].h == "const":
            ty = self.type_of(a[0])
            if isinstance(ty, tuple) and ty[0] == "cls" and ty[1].find(a[1].a[0]) is not None:
                return TRUE
        return bool_atom(mk("bool", "hasattr", a[0], a[1]))

    def b_setattr(self, a, kw, fr, st):
        if a[1].h == "const":
            self.store_attr(a[0], a[1].a[0], a[2], fr, st)
            return NONE
        return None

    def b_vars(self, a, kw, fr, st):
        return mk("dictof", a[0])

    def b_callable(self, a, kw, fr, st):
        if a[0].h in ("clo", "bound", "cfunc", "func", "class", "lam"):
            return TRUE
        return bool_atom(mk("bool", "callable", a[0]))

    def b_divmod(self, a, kw, fr, st):
        return tup([self.binop("FloorDiv", a[0], a[1], st, fr), self.binop("Mod", a[0], a[1], st, fr)])

    def b_object(self, a, kw, fr, st):
        return self.new(("ext", "object"))

    def b_super(self, a, kw, fr, st):
        return None

    # -- external functions -------------------------------------------------------------------

    def extcall(self, name, pos, kws, fr, st, discard=False):
        a = self.plain(pos)
        kw = self.kwd(kws)
        if a is None and name in ("itertools.chain", "itertools.product") and all(k == "star" for k, _ in pos) and len(pos) == 1:
            s = pos[0][1]
            if name == "itertools.chain":
                return self.flatten_seq(s, st, fr)
        if a is not None and kw is not None:
            if name in OPERATORS and len(a) == 2:
                return self.binop(OPERATORS[name], a[0], a[1], st, fr)
            if name in COMPARES and len(a) == 2:
                return self.compare(COMPARES[name], a[0], a[1], st, fr)
            if name in self.models:
                node, module = self.models[name]
                return self.construct(module.bind[node.name][1], pos, kws, fr, st)
            f = getattr(self, "x_" + name.replace(".", "_"), None)
            if f is not None:
                r = f(a, kw, fr, st)
                if r is not None:
                    return r
        return self.opaque_call(mk("ext", name), pos, kws, st, discard)

    # -- linear programs ------------------------------------------------------------------------

    def ext_const(self, name):
        return EXT_CONSTANTS.get(name) or mk("ext", name)

    def x_pulp_LpVariable(self, a, kw, fr, st):
        """An unknown number, known by its name, with its bounds and kind."""
        names = ("name", "lowBound", "upBound", "cat", "e")
        if len(a) > 4 or any(k not in names[:4] for k in kw):
            return None
        v = dict(zip(names, a))
        v.update(kw)
        lo, up, cat = v.get("lowBound", NONE), v.get("upBound", NONE), v.get("cat", const("Continuous"))
        if cat is const("Binary"):
            lo, up, cat = ZERO, ONE, const("Integer")

        def one(*xs):
            r = mk("lpvar", *xs)
            self.types[r] = "num"
            return r

        return lift(one, v["name"], lo, up, cat)

    def x_pulp_lpSum(self, a, kw, fr, st):
        return self.b_sum(a, kw, fr, st) if len(a) == 1 else None

    x_pulp_LpAffineExpression_sum = x_pulp_lpSum

    def flatten_seq(self, s, st, fr):
        """Concatenation of the sequences in s."""
        def one(x):
            out = []
            for p in t.parts_of(x):
                inner = self.seq(p.elem, st, fr)

                def paths(b, c, p=p):
                    if c is FALSE:
                        return
                    if b.h == "ite":
                        at = bool_atom(b.a[0])
                        paths(b.a[1], AND(c, at))
                        paths(b.a[2], AND(c, NOT(at)))
                        return
                    for q in t.parts_of(b):
                        out.append(comp_of(list(p.vs) + list(q.vs), list(p.spaces) + list(q.spaces), AND(c, q.cond), q.elem))

                paths(inner, p.cond)
            return concat(out)

        return lift(one, s)

    def x_itertools_chain(self, a, kw, fr, st):
        return concat([self.seq(x, st, fr) for x in a]) if a else EMPTY

    def x_itertools_chain_from_iterable(self, a, kw, fr, st):
        return self.flatten_seq(self.seq(a[0], st, fr), st, fr)

    def x_itertools_product(self, a, kw, fr, st):
        if kw:
            return None
        vs, spaces, cond, elems = [], [], TRUE, []
        if self.unroll:
            known = [self.seq(x, st, fr) for x in a]
            if any(l.h in ("tup", "set") for x in known for l in t.leaves(x)):
                def every(*xs):
                    ys = [self.literal(x) for x in xs]
                    if any(y is None for y in ys):
                        self.undecided("product of something not enumerated")
                    return tup([tup(list(z)) for z in itertools.product(*ys)])
                return lift(every, *known)
        for x in a:
            s = self.seq(x, st, fr)
            ps = t.parts_of(s) if s.h != "ite" else []
            if len(ps) != 1:
                return None
            p = ps[0]
            vs += p.vs
            spaces += p.spaces
            cond = AND(cond, p.cond)
            elems.append(p.elem)
        return comp_of(vs, spaces, cond, tup(elems))

    def x_itertools_combinations_with_replacement(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        if not t.is_num_const(a[1]) or a[1].a[0] != 2:
            return None

        def one(x):
            i, j = fresh("i"), fresh("j")
            for v in (i, j):
                self.types[v] = "int"
                self.types[("idx", v)] = True
            ln = length(x)
            if x.h == "set" and x.a[0].h == "tup":
                x = x.a[0]
            if self.unroll and x.h == "tup" and len(x.a[0]) <= 6:
                return tup([tup([p, q]) for k, p in enumerate(x.a[0]) for q in x.a[0][k:]])
            return comp_of([i, j], [t.range_(ZERO, ln), t.range_(i, ln)], TRUE, tup([elem(x, i), elem(x, j)]))

        return lift(one, s)

    def x_itertools_combinations(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        if not t.is_num_const(a[1]):
            return None
        n = a[1].a[0]

        def one(x):
            if n == 2:
                i, j = fresh("i"), fresh("j")
                for v in (i, j):
                    self.types[v] = "int"
                    self.types[("idx", v)] = True
                ln = length(x)
                if x.h == "set" and x.a[0].h == "tup":
                    x = x.a[0]
                if self.unroll and x.h == "tup" and len(x.a[0]) <= 6:
                    return tup([tup([p, q]) for k, p in enumerate(x.a[0]) for q in x.a[0][k + 1:]])
                return comp_of([i, j], [t.range_(ZERO, ln), t.range_(t.add2(i, ONE), ln)], TRUE, tup([elem(x, i), elem(x, j)]))
            return mk("combinations", x, n)

        return lift(one, s)

    def x_itertools_permutations(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        n = a[1] if len(a) > 1 else kw.get("r", NONE)
        if not t.is_num_const(n):
            return None
        def one(x):
            if x.h == "set" and x.a[0].h == "tup":
                x = x.a[0]
            if x.h == "tup" and n.a[0] == 2 and len(x.a[0]) <= 4:
                return tup([tup([p, q]) for i, p in enumerate(x.a[0]) for j, q in enumerate(x.a[0]) if i != j])
            return mk("permutations", x, n.a[0])

        return lift(one, s)

    def x_itertools_islice(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        if self.unroll:
            s = lift(lambda x: tup(self.literal(x)) if self.literal(x) is not None else x, s)
        if len(a) == 2:
            return lift(lambda x: t.slice_(x, ZERO, a[1]), s)
        if len(a) == 3:
            return lift(lambda x: t.slice_(x, a[1], a[2]), s)
        return None

    def x_random_Random(self, a, kw, fr, st):
        if not self.unroll or len(a) + len(kw) > 1 or set(kw) - {"x"}:
            return None
        seed = a[0] if a else kw.get("x")
        n = self.new(("list", None))
        st.cont[n] = tup([mk("seeded", t.NONE if seed is None else self.val(seed, st))])
        self.touch(st)
        self.rngs.add(n)
        return n

    def drawn(self, o, name, pos, kws, st):
        """What a generator gives depends on its seed, the draws made before, and what is asked for."""
        p, k = self.canon_args(pos, kws, st)
        if name == "randint" and len(p) == 2 and not k:
            name, p = "randrange", (p[0], t.add2(p[1], t.ONE))
        elif name == "randrange" and len(p) == 1 and not k:
            p = (ZERO, p[0])
        past = self.val(o, st)
        ask = mk("call", mk("ext", "random.Random." + name), p, k)
        self.set_cont(o, lift(lambda x: t.concat([x, tup([ask])]), past), st)
        if name == "choice" and len(p) == 1 and len(pos) == 1 and not kws:
            # no choice: a draw from one
            c = constrain(self.val(pos[0][1], st), st.pc)
            xs = [self.literal(x) for x in t.leaves(c)]
            if xs and all(x is not None and len(x) == 1 for x in xs):
                return lift(lambda x: self.literal(x)[0], c)
        return lift(lambda x: mk("mcall", x, name, p, k), past)

    def x_itertools_count(self, a, kw, fr, st):
        return None

    def x_itertools_repeat(self, a, kw, fr, st):
        if len(a) == 2:
            i = fresh("i")
            return comp_of([i], [t.range_(ZERO, a[1])], TRUE, a[0])
        return None

    def x_itertools_starmap(self, a, kw, fr, st):
        s = self.seq(a[1], st, fr)
        return self.each(s, lambda x, z: self.call(a[0], [("star", x)], [], fr, z), fr, st)

    def x_functools_reduce(self, a, kw, fr, st):
        s = self.seq(a[1], st, fr)
        if len(a) < 3:
            # raises on an empty iterable; otherwise the fold started by the first element
            ne = lift(t.nonempty, s)
            if ne is not TRUE:
                fr.exits.append(self.make_exit("raise", AND(st.pc, NOT(ne)), mk("call", mk("builtin", "TypeError"), (), ()), st))
                st.pc = AND(st.pc, ne)
            f = a[0]
            if f.h == "ext" and f.a[0] in ("operator.and_",):
                return lift(t.forall, s)
            if f.h == "ext" and f.a[0] in ("operator.or_",) and self.kind_of(self.first_of(s)) != "set":
                return lift(t.exists, s)
            if f.h == "ext" and f.a[0] == "operator.add":
                return lift(t.sum_of, s)
            if f.h == "builtin" and f.a[0] in ("max", "min"):
                return self.agg(f.a[0], s)
            first = self.first_of(s)
            rest = lift(lambda x: t.slice_(x, ONE, NONE), s)
            return self.run_fold(f, rest, first, fr, st)
        return self.run_fold(a[0], s, a[2], fr, st)

    def make_exit(self, kind, pc, value, st):
        from .interp import Exit
        return Exit(kind, pc, value, st.copy(), None)

    def run_fold(self, f, s, init, fr, st):
        name = "$acc%d" % self.nid
        self.nid += 1
        st.env = dict(st.env)
        st.env[name] = init

        def body(x, state):
            state.env[name] = self.apply(f, [state.env[name], x], fr, state)
            return state

        r = self.iterate(s, body, {name}, fr, st, ast.Pass())
        if r is None:
            return UNDEF
        res = r.env.pop(name)
        st.env.pop(name, None)
        st.heap, st.cont, st.version, st.pc = r.heap, r.cont, r.version, r.pc
        return res

    def x_math_comb(self, a, kw, fr, st):
        if len(a) == 2 and t.is_num_const(a[1]) and 0 <= a[1].a[0] <= 8:
            k = int(a[1].a[0])
            r = ONE
            for i in range(k):
                r = self.binop("Mult", r, t.sub(a[0], num(i)), st, fr)
            return self.binop("FloorDiv", r, num(math.factorial(k)), st, fr)
        return None

    def x_functools_partial(self, a, kw, fr, st):
        return mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items())))

    def x_copy_deepcopy(self, a, kw, fr, st):
        if self.unroll:
            memo = a[1] if len(a) > 1 else kw.get("memo", NONE)
            if memo is NONE:
                memo = self.new_container("dict", mk("dictv", ()), st)
            return self.deep(a[0], memo, st)
        return self.deepcopy_of(a[0], st)

    def undecided(self, why):
        from .interp import Undecided
        raise Undecided(why)

    def deep(self, x, memo, st):
        """copy.deepcopy: a new object for every known one, the same copy for the same object, rules of the class first."""
        if x.h == "ite":
            return ite(t.bool_atom(x.a[0]), self.deep(x.a[1], memo, st), self.deep(x.a[2], memo, st))
        ty = self.type_of(x)
        if x.h == "const" or ty in ("num", "int", "str", "bool"):
            return x
        if x.h in ("tup", "set"):
            y = (tup([self.deep(z, memo, st) for z in (x if x.h == "tup" else x.a[0]).a[0]])
                 if x.h == "tup" or x.a[0].h == "tup" else None)
            if y is not None:
                return y if x.h == "tup" else t.set_of(y)
        key = mk("id", x)
        got = self.memo_of(self.val(memo, st), key)
        if got is not None:
            return got
        if isinstance(ty, tuple) and ty[0] == "cls" and ty[1].find("__deepcopy__") is not None:
            n = self.call_bound(x, "__deepcopy__", [("pos", memo)], [], None_frame(self), st)
            self.remember(memo, key, n, st)
            return n
        if x.h != "new":
            return mk("deepcopy", self.val(x, st))
        n = self.new(self.news[x.a[0]])
        self.remember(memo, key, n, st)
        if x in st.cont:
            c = constrain(st.cont[x], st.pc)
            st.cont[n] = lift(lambda y: self.deep_content(y, memo, st), c)
        for (o, f), v in list(st.heap.items()):
            if o is x and v is not UNDEF:
                st.heap = dict(st.heap)
                st.heap[(n, f)] = self.deep(v, memo, st)
        self.touch(st)
        return n

    def deep_content(self, c, memo, st):
        if c.h == "tup":
            return tup([self.deep(y, memo, st) for y in c.a[0]])
        if c.h == "set" and c.a[0].h == "tup":
            return t.set_of(tup([self.deep(y, memo, st) for y in c.a[0].a[0]]))
        if c.h == "dictv":
            return mk("dictv", tuple((self.deep(k, memo, st), self.deep(v, memo, st)) for k, v in c.a[0]))
        self.undecided("deep copy of something not enumerated")

    def memo_of(self, c, key):
        """What has been copied already under this key, if anything."""
        if c.h == "ite":
            a, b = self.memo_of(c.a[1], key), self.memo_of(c.a[2], key)
            if a is not b:
                self.undecided("copied on some paths only")
            return a
        if c.h == "dictv":
            return next((v for k, v in c.a[0] if k is key), None)
        if c.h == "dictset":
            return c.a[2] if c.a[1] is key else self.memo_of(c.a[0], key)
        if c.h == "dmerge":
            return next((y for y in (self.memo_of(x, key) for x in reversed(c.a[0])) if y is not None), None)
        self.undecided("memory of a copy")

    def remember(self, memo, key, v, st):
        self.set_cont(memo, mk("dictset", self.val(memo, st), key, v), st)

    def x_copy_copy(self, a, kw, fr, st):
        o = a[0]
        ty = self.type_of(o)
        if isinstance(ty, tuple) and ty[0] in ("list", "set", "dict"):
            return self.new_container(ty[0], self.val(o, st), st)
        return mk("copy", self.val(o, st))

    def deepcopy_of(self, o, st):
        def leaf(x):
            if x.h == "const":
                return x
            ty = self.type_of(x)
            if ty in ("num", "int", "str", "bool"):
                return x
            if isinstance(ty, tuple) and ty[0] == "cls":
                m = ty[1].find("__deepcopy__")
                if m is not None:
                    return self.call_bound(x, "__deepcopy__", [("pos", NONE)], [], None_frame(self), st)
            return mk("deepcopy", self.val(x, st))

        return lift(leaf, o)

    def x_math_sqrt(self, a, kw, fr, st):
        return self.power(a[0], num(0.5))

    def x_math_hypot(self, a, kw, fr, st):
        s = ZERO
        for x in a:
            s = t.add2(s, t.mul(x, x))
        return self.power(s, num(0.5))

    def x_math_fabs(self, a, kw, fr, st):
        return self.b_abs(a, kw, fr, st)

    def x_math_pow(self, a, kw, fr, st):
        return self.power(a[0], a[1])

    def x_math_isinf(self, a, kw, fr, st):
        return None

    def x_math_fsum(self, a, kw, fr, st):
        return self.b_sum(a, kw, fr, st)

    def x_statistics_mean(self, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        return lift(lambda x: t.div(t.sum_of(x), length(x)), s)

    def x_heapq_nlargest(self, a, kw, fr, st):
        return self.nbest_term(a, kw, fr, st, TRUE)

    def x_heapq_nsmallest(self, a, kw, fr, st):
        return self.nbest_term(a, kw, fr, st, FALSE)

    def nbest_term(self, a, kw, fr, st, rev):
        key = a[2] if len(a) > 2 else kw.get("key")
        s = self.seq(a[1], st, fr)
        k = self.keyfn(key, fr, st)
        if self.unroll:
            c = lift(lambda x: lift(lambda y: t.slice_(y, ZERO, a[0]), self.sort_term(x, k, rev, key, fr, st)), s)
        else:
            c = lift(lambda x: t.slice_(mk("sorted", x, k, rev), ZERO, a[0]), s)
        return self.new_container("list", c, st)

    def x_time_time(self, a, kw, fr, st):
        self.nid += 1
        return mk("call", mk("ext", "time.time"), (num(self.nid),), ())

    def x_operator_itemgetter(self, a, kw, fr, st):
        if len(a) != 1:
            return None
        v = fresh("x")
        return mk("lam", 1, t.close(elem(v, a[0]), [v]))

    def x_operator_attrgetter(self, a, kw, fr, st):
        return mk("attrgetter", *a)

    def x_operator_neg(self, a, kw, fr, st):
        return t.neg(a[0])

    def x_operator_not_(self, a, kw, fr, st):
        return NOT(self.truth(a[0], st, fr))

    # -- container methods --------------------------------------------------------------------

    def container_call(self, o, name, a, kw, fr, st):
        ty = self.type_of(o)
        c = self.val(o, st)
        kind = ty[0] if isinstance(ty, tuple) else None
        if kind is None:
            if t.is_setlike(c):
                kind = "set"
            elif c.h in ("dictv", "dmerge", "dictset", "kwrest", "dictcomp"):
                kind = "dict"
            elif self.kind_of(c) == "str":
                kind = "str"
            elif self.kind_of(c) == "seq":
                kind = "list"
        f = getattr(self, "m_%s_%s" % (kind, name), None)
        if f is None:
            if kind == "tuple":
                f = getattr(self, "m_list_" + name, None)
            if f is None:
                return None
        return f(o, c, a, kw, fr, st)

    # lists
    def m_list_append(self, o, c, a, kw, fr, st):
        self.set_cont(o, concat([c, tup([a[0]])]), st)
        return NONE

    def m_list_extend(self, o, c, a, kw, fr, st):
        self.set_cont(o, concat([c, self.seq(a[0], st, fr)]), st)
        return NONE

    def m_list_insert(self, o, c, a, kw, fr, st):
        i = a[0]
        self.set_cont(o, concat([t.slice_(c, ZERO, i), tup([a[1]]), t.slice_(c, i, NONE)]), st)
        return NONE

    def m_list_pop(self, o, c, a, kw, fr, st):
        n = length(c)
        i = t.norm_index(c, a[0]) if a else t.sub(n, ONE)
        v = elem(c, i)
        self.set_cont(o, concat([t.slice_(c, ZERO, i), t.slice_(c, t.add2(i, ONE), NONE)]), st)
        return v

    def m_list_remove(self, o, c, a, kw, fr, st):
        self.set_cont(o, mk("removed", c, a[0]), st)
        return NONE

    def m_list_clear(self, o, c, a, kw, fr, st):
        self.set_cont(o, EMPTY, st)
        return NONE

    def m_list_copy(self, o, c, a, kw, fr, st):
        return self.new_container("list", c, st)

    def m_list_reverse(self, o, c, a, kw, fr, st):
        self.set_cont(o, self.reversed_(c), st)
        return NONE

    def m_list_sort(self, o, c, a, kw, fr, st):
        k = self.keyfn(kw.get("key"), fr, st)
        rev = as_bool(kw.get("reverse", FALSE))
        self.set_cont(o, lift(lambda x: self.sort_term(x, k, rev, kw.get("key"), fr, st), c), st)
        return NONE

    def m_list_index(self, o, c, a, kw, fr, st):
        if len(a) != 1:
            return None

        if self.guard_stack:
            self.guard_stack[-1].append(("ValueError", t.contains(a[0], c)))

        def leaf(x):
            if x.h == "tup":
                r = UNDEF
                for i, y in reversed(list(enumerate(x.a[0]))):
                    r = t.ite(t.eq(y, a[0]), num(i), r)
                return r
            sp = t.range_(t.ZERO, t.length(x))
            if sp.h != "range":
                return mk("index", x, a[0])
            v = t.bind(sp, "i")
            return t.first(t.comp_of([v], [sp], t.eq(t.elem(x, v), a[0]), v))

        return lift(leaf, c)

    def m_list_count(self, o, c, a, kw, fr, st):
        return None

    # sets
    def m_set_add(self, o, c, a, kw, fr, st):
        self.set_cont(o, t.union([c, t.set_of(tup([a[0]]))]), st)
        return NONE

    def m_set_update(self, o, c, a, kw, fr, st):
        parts = [c] + [lift(t.set_of, self.seq(x, st, fr)) for x in a]
        self.set_cont(o, lift(lambda *x: t.union(list(x)), *parts), st)
        return NONE

    def m_set_remove(self, o, c, a, kw, fr, st):
        self.set_cont(o, t.diff(c, t.set_of(tup([a[0]]))), st)
        return NONE

    m_set_discard = m_set_remove

    def m_set_clear(self, o, c, a, kw, fr, st):
        self.set_cont(o, t.set_of(EMPTY), st)
        return NONE

    def m_set_copy(self, o, c, a, kw, fr, st):
        return self.new_container("set", c, st)

    def m_set_pop(self, o, c, a, kw, fr, st):
        return None

    def m_set_union(self, o, c, a, kw, fr, st):
        return self.new_container("set", t.union([c] + [t.set_of(self.seq(x, st, fr)) for x in a]), st)

    def m_set_difference(self, o, c, a, kw, fr, st):
        r = c
        for x in a:
            r = t.diff(r, t.set_of(self.seq(x, st, fr)))
        return self.new_container("set", r, st)

    def m_set_difference_update(self, o, c, a, kw, fr, st):
        r = c
        for x in a:
            r = t.diff(r, t.set_of(self.seq(x, st, fr)))
        self.set_cont(o, r, st)
        return NONE

    def m_set_intersection(self, o, c, a, kw, fr, st):
        r = c
        for x in a:
            r = t.inter(r, self.seq(x, st, fr))
        return self.new_container("set", r, st)

    def m_set_isdisjoint(self, o, c, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        return NOT(self.exists_where(s, lambda x: t.contains(x, c)))

    def m_set_issubset(self, o, c, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        return NOT(self.exists_where(c, lambda x: NOT(t.contains(x, s))))

    def m_set_issuperset(self, o, c, a, kw, fr, st):
        s = self.seq(a[0], st, fr)
        return NOT(self.exists_where(s, lambda x: NOT(t.contains(x, c))))

    def exists_where(self, s, pred):
        out = []
        for p in t.parts_of(s):
            out.append(t.exists_part(p.vs, p.spaces, AND(p.cond, pred(p.elem))))
        return OR(*out) if out else FALSE

    # dictionaries
    def m_dict_get(self, o, c, a, kw, fr, st):
        d = a[1] if len(a) > 1 else kw.get("default", NONE)
        return lift(lambda x: self.dict_get(x, a[0], d), c)

    def m_dict_keys(self, o, c, a, kw, fr, st):
        return lift(self.dict_keys, c)

    def m_dict_values(self, o, c, a, kw, fr, st):
        def leaf(d):
            if d.h == "dictv":
                return tup([v for _, v in d.a[0]])
            if d.h == "dictcomp":
                # values in key order; duplicates of a key keep the last value
                return mk("dictvals", d)
            return mk("dictvals", d)

        return lift(leaf, c)

    def m_dict_items(self, o, c, a, kw, fr, st):
        def leaf(d):
            if d.h == "dictv":
                return tup([tup([k, v]) for k, v in d.a[0]])
            return mk("dictitems", d)

        return lift(leaf, c)

    def m_dict_copy(self, o, c, a, kw, fr, st):
        return self.new_container("dict", c, st)

    def m_dict_update(self, o, c, a, kw, fr, st):
        ps = [c] + [self.val(x, st) for x in a]
        if kw:
            ps.append(mk("dictv", tuple((const(k), kw[k]) for k in sorted(kw))))
        self.set_cont(o, self.dmerge(ps), st)
        return NONE

    def m_dict_setdefault(self, o, c, a, kw, fr, st):
        d = a[1] if len(a) > 1 else NONE
        has = self.dict_has(c, a[0])
        cur = self.dict_get(c, a[0], None)
        self.set_cont(o, ite(has, c, self.dict_set(c, a[0], d)), st)
        return ite(has, cur, d)

    def m_dict_pop(self, o, c, a, kw, fr, st):
        k = a[0]
        v = self.dict_get(c, k, a[1] if len(a) > 1 else None)
        if k.h == "const":
            if c.h == "dictv":
                n = mk("dictv", tuple((x, y) for x, y in c.a[0] if x is not k))
            elif c.h == "dmerge":
                n = self.dmerge([
                    mk("dictv", tuple((x, y) for x, y in p.a[0] if x is not k)) if p.h == "dictv" else self.kwrest(p, [k.a[0]])
                    for p in c.a[0]
                ])
            else:
                n = self.kwrest(c, [k.a[0]])
        else:
            n = mk("dictdel", c, k)
        self.set_cont(o, n, st)
        return v

    def m_dict_clear(self, o, c, a, kw, fr, st):
        self.set_cont(o, mk("dictv", ()), st)
        return NONE

    # strings
    def m_str_join(self, o, c, a, kw, fr, st):
        return self.join(c, self.seq(a[0], st, fr))

    def m_str_format(self, o, c, a, kw, fr, st):
        if c.h != "const":
            return None
        import string
        out = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(c.a[0]):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == "":
                    v = a[auto]
                    auto += 1
                elif field.isdigit():
                    v = a[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                out.append(self.format(self.val(v, st), const(spec or ""), ord(conv) if conv else 0, st))
        except (ValueError, IndexError):
            return None
        return lift(lambda *xs: t.str_concat(list(xs)), *out) if out else const("")

    def m_str_split(self, o, c, a, kw, fr, st):
        r = mk("split", c, *[self.val(x, st) for x in a])
        self.types[r] = ("list", "str")
        return r

    def m_str_splitlines(self, o, c, a, kw, fr, st):
        if c.h == "filetext" and not a:
            r = mk("lines", c.a[0])
            self.types[r] = ("list", "str")
            return r
        r = mk("splitlines", c)
        self.types[r] = ("list", "str")
        return r

    def m_str_strip(self, o, c, a, kw, fr, st):
        r = mk("strip", c, *a)
        self.types[r] = "str"
        return r


def None_frame(eng):
    from .interp import Frame
    return Frame(None, None, None, None, 0)

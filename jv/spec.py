"""Reference equations.

A reference file under /verif/spec holds pseudo-classes named like the classes of the package.  Each
member is the defining equation of one public observable, written over primitive fields and over the
*boundary* observables (which have their own equation).  A member of the package is right when its
value graph, computed from the current source, is the same normal form as the reference's.
"""
from __future__ import annotations

import ast
import os
import pickle
import threading
import time
from fractions import Fraction

from . import terms as t
from .index import member_kind
from .interp import CUT, Engine, Undecided
from .terms import OutOfBudget, TooBig, T, TRUE, FALSE, UNDEF

SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")

BOUNDARY = {
    "Stop": "arrival_time departure_time starting_time capacity feasible earliest latest load_time transit_time "
            "waiting_time",
    "PlannedTrip": "feasible",
    "Route": "feasible",
    "Planning": "feasible",
    "Objective": "optimization_function best",
}

# observables unfolded on the second attempt: their own equations are not recursive
UNFOLD = [
    set(),
    {("Stop", "departure_time"), ("Stop", "waiting_time"), ("Stop", "transit_time"), ("Stop", "load_time"),
     ("Stop", "earliest"), ("Stop", "latest")},
    {("Stop", "departure_time"), ("Stop", "waiting_time"), ("Stop", "transit_time"), ("Stop", "load_time"),
     ("Stop", "earliest"), ("Stop", "latest"), ("Stop", "starting_time"), ("Stop", "feasible"),
     ("PlannedTrip", "feasible")},
]

# heads that stand for "the analysis lost track here"
SUSPECT = {"opaque", "cyc", "viastar", "loop", "until", "closure"}


def boundary_set(extra=(), drop=()):
    r = set()
    for c, ms in BOUNDARY.items():
        for m in ms.split():
            r.add((c, m))
    r |= set(extra)
    return r - set(drop)


class Broken(Exception):
    """The analysis cannot be carried out: a public anchor is gone."""


class Ob:
    """One obligation and its outcome."""

    def __init__(self, key, status, where="", detail="", inlined=()):
        self.key = key
        self.status = status  # 'ok' | 'violated' | 'undecided' | 'known'
        self.where = where
        self.detail = detail
        self.inlined = inlined

    def __repr__(self):
        return "%s %s %s %s" % (self.status, self.key, self.where, self.detail)


WORKERS = max(1, min(6, (os.cpu_count() or 1) - 1))


def spread(tasks):
    """The outcomes of independent obligations, worked out by a few processes; in the order given."""
    if WORKERS < 2 or len(tasks) < 4 or not hasattr(os, "fork"):
        return [x() for x in tasks]
    out = [None] * len(tasks)
    kids = []
    for w in range(WORKERS):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(wr, "wb") as fh:
                    for i in range(w, len(tasks), WORKERS):
                        try:
                            v = tasks[i]()
                        except Broken as x:
                            v = x
                        pickle.dump((i, v), fh)
                        fh.flush()
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, r))

    def read(r):
        with os.fdopen(r, "rb") as fh:
            while True:
                try:
                    i, v = pickle.load(fh)
                except (EOFError, pickle.UnpicklingError):
                    return
                out[i] = v

    readers = [threading.Thread(target=read, args=(r,), daemon=True) for _, r in kids]
    for x in readers:
        x.start()
    end = time.time() + 600
    for x in readers:
        x.join(max(0.1, end - time.time()))
    for pid, _ in kids:
        try:
            if time.time() >= end:
                os.kill(pid, 9)
            os.waitpid(pid, 0)
        except OSError:
            pass
    for x in out:
        if isinstance(x, Broken):
            raise x
    return [Ob("obligation %d" % i, "undecided", "", "not finished") if x is None else x for i, x in enumerate(out)]


class RefMember:
    def __init__(self, cls, name, node, kind, decos):
        self.cls = cls
        self.name = name
        self.node = node
        self.kind = kind
        self.decos = decos


class RefClass:
    def __init__(self, name, node):
        self.name = name
        self.node = node
        self.members = {}
        self.opts = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decos = {d.id for d in s.decorator_list if isinstance(d, ast.Name)}
                base, _, alt = s.name.partition("__alt")
                if s.name.startswith("__"):
                    head, sep, alt = s.name.rpartition("__alt")
                    base = head if sep else s.name
                self.members.setdefault(base, []).append(RefMember(self, s.name, s, member_kind(s), decos))
            elif isinstance(s, ast.Assign):
                try:
                    self.opts[s.targets[0].id] = ast.literal_eval(s.value)
                except ValueError:
                    pass


def load(ix, name):
    mod = "jvspec." + name
    if mod not in ix.modules:
        ix.add_module(os.path.join(SPEC_DIR, name + ".py"), mod)
    m = ix.modules[mod]
    for s in m.tree.body:
        if isinstance(s, ast.ImportFrom) and (s.module or "").startswith("jvspec.") and s.module not in ix.modules:
            ix.add_module(os.path.join(SPEC_DIR, s.module[7:] + ".py"), s.module)
    out = []
    by = {}
    for s in m.tree.body:
        if isinstance(s, ast.ClassDef):
            rc = RefClass(s.name, s)
            by[s.name] = rc
            for b in s.bases:
                # a reference may inherit the equations of another one
                if not isinstance(b, ast.Name) or b.id not in by:
                    continue
                for n, alts in by[b.id].members.items():
                    rc.members.setdefault(n, alts)
            if not s.name.startswith("_"):
                out.append(rc)
    return m, out


# -- comparison ---------------------------------------------------------------------------------


def suspects(*ts):
    r = set()
    for x in ts:
        for y in t.subterms(x):
            if y.h == "bool" and y.a[0] == "noraise":
                r.add("exception handler")
            if y.h == "mcall" and y.a[1] in CUT and y.a[0].h in ("obj", "new"):
                r.add("recursive call: %s" % y.a[1])
            if y.h in SUSPECT:
                r.add("%s:%s" % (y.h, y.a[0] if y.a and isinstance(y.a[0], str) else ""))
    return r


def ext_names(x):
    return {y.a[0] for y in t.subterms(x) if y.h == "ext"}


def _bound(p, strict):
    """p <= 0 (or < 0) for p = k*x - k*y + c or k*x + c as an edge x <= y + c of the domain of differences."""
    m, c = t.poly_of(p)
    ks = list(m.items())
    if len(ks) == 1:
        (x, k), = ks
        if k > 0:
            x, y = x, None
        else:
            x, y = None, x
    elif len(ks) == 2 and ks[0][1] == -ks[1][1]:
        (x, k), (y, _) = ks
        if k < 0:
            x, y = y, x
    else:
        return None
    return x, y, (-c / abs(k), 0 if strict is False else -1)


def _consistent(bounds):
    edges = {}
    for x, y, w in bounds:
        if (x, y) not in edges or w < edges[(x, y)]:
            edges[(x, y)] = w
    if len(edges) < 2:
        return True
    names = {x for e in edges for x in e}
    dist = {x: (0, 0) for x in names}
    for _ in range(len(names)):
        changed = False
        for (x, y), (c, q) in edges.items():
            # x <= y + c: the least bound of x by way of y
            d = (dist[y][0] + c, dist[y][1] + q)
            if d < dist[x]:
                dist[x] = d
                changed = True
        if not changed:
            return True
    return False


def possible(path):
    """Can the comparisons of a path hold together?  Decided in the domain of differences x - y <= c (closed by cycles)."""
    bounds, unequal = [], []

    def bound(p, strict):
        b = _bound(p, strict)
        if b is not None:
            bounds.append(b)

    for a, v in path:
        if a.h == "nonempty":
            n = t.length(a.a[0])
            if n.h == "len":
                bound(t.sub(t.ONE, n) if v else n, False)
            continue
        if a.h not in ("le", "lt", "eq0"):
            continue
        p = a.a[0]
        neg = t.mul(p, t.num(-1))
        if a.h == "eq0":
            if v:
                bound(p, False)
                bound(neg, False)
            else:
                unequal.append((p, neg))
        elif v:
            bound(p, a.h == "lt")
        else:
            bound(neg, a.h == "le")
    if not _consistent(bounds):
        return False
    for p, neg in unequal:
        sides = [_bound(p, True), _bound(neg, True)]
        if None not in sides and bounds and not any(_consistent(bounds + [b]) for b in sides):
            return False
    return True


def linear(path, limit=600):
    """Can the comparisons of a path hold together?  Decided in the domain of linear inequalities (by elimination)."""
    rows = []

    def row(p, sign, strict):
        if any(f.h == "ite" for f in (p,)):
            return
        d, c = t.poly_of(p)
        if abs(c) == float("inf"):
            return
        rows.append(({m: Fraction(k) * sign for m, k in d.items()}, Fraction(c) * sign, strict))

    for a, v in path:
        if a.h in ("le", "lt"):
            row(a.a[0], 1 if v else -1, (a.h == "lt") == v)
        elif a.h == "eq0" and v:
            row(a.a[0], 1, False)
            row(a.a[0], -1, False)
    while True:
        kept, seen = [], set()
        for d, c, strict in rows:
            d = {m: k for m, k in d.items() if k}
            if not d:
                if c > 0 or strict and c == 0:
                    return False
                continue
            n = abs(next(iter(d.values())))
            key = (frozenset((m, k / n) for m, k in d.items()), c / n, strict)
            if key not in seen:
                seen.add(key)
                kept.append((d, c, strict))
        rows = kept
        if not rows or len(rows) > limit:
            return True
        count = {}
        for d, _, _ in rows:
            for m, k in d.items():
                u = count.setdefault(m, [0, 0])
                u[k > 0] += 1
        x = min(count, key=lambda m: (count[m][0] * count[m][1] - sum(count[m]), str(m)))
        up = [r for r in rows if r[0].get(x, 0) > 0]
        lo = [r for r in rows if r[0].get(x, 0) < 0]
        rows = [r for r in rows if not r[0].get(x, 0)]
        for d, c, s in up:
            for e, b, q in lo:
                h, k = -e[x], d[x]
                f = {m: d.get(m, 0) * h + e.get(m, 0) * k for m in set(d) | set(e) if m != x}
                rows.append((f, c * h + b * k, s or q))


DESCEND = {"tup", "set", "obj", "mcall", "call", "dictv", "concat", "union", "elem", "nonempty", "exists_in"}


def differences(a, b, limit=64):
    """Paths on which two trees disagree: [(atoms, code leaf, reference leaf)]; all: no path was left out."""
    out = Differences()
    steps = [0]

    def below(x, y):
        """The places where two terms of the same make differ, or None."""
        if x.h != y.h or x.h not in DESCEND or len(x.a) != len(y.a):
            return None
        found = []

        def pair(p, q):
            if p is q or p == q:
                return True
            if isinstance(p, T) and isinstance(q, T):
                found.append((p, q))
                return True
            if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                return all(pair(u, v) for u, v in zip(p, q))
            return False

        if not all(pair(p, q) for p, q in zip(x.a, y.a)):
            return None
        return found

    def number(x):
        return x.h in ("poly", "mono", "len") or t.is_num_const(x)

    def extreme(x):
        """A maximum or minimum that is (part of) the sum x."""
        if x.h in ("max", "min"):
            return x
        if x.h == "poly":
            for m in t.poly_of(x)[0]:
                for f in m:
                    if f.h in ("max", "min"):
                        return f
        return None

    def decided(x, rounds=6):
        """Extremes inside a condition, by the one they are."""
        m = next((s for s in t.subterms(x) if s.h in ("max", "min")), None)
        if m is None or not rounds:
            return x
        z, rest = m.a[0][0], m.a[0][1:]
        w = t.minmax(m.h, list(rest))
        c = t.le(w, z) if m.h == "max" else t.le(z, w)
        return t.ite(c, decided(t.substitute(x, {m: z}), rounds - 1), decided(t.substitute(x, {m: w}), rounds - 1))

    def paired(xs, ys):
        """Does each condition of the one collection come out like one of the other?"""
        if len(xs) != len(ys) or len(xs) > 40:
            return False
        mark = lambda p: frozenset(s for s in t.subterms(p) if s.h == "lpvar")
        ys = [(mark(q), q) for q in ys]
        for p in xs:
            of = mark(p)
            for k, (m, q) in enumerate(ys):
                if m == of and differences(decided(p), decided(q), 1).same:
                    del ys[k]
                    break
            else:
                return False
        return True

    def go(x, y, path, done=0, deep=0):
        """True if the two agree wherever the path is possible."""
        steps[0] += 1
        if x is y:
            return True
        if len(out) >= limit or steps[0] > 3000:
            out.all = False
            return False
        if x.h != "ite" and y.h != "ite":
            m = {a: TRUE if v else FALSE for a, v in path[done:]}
            if m:
                # the conditions of the path hold inside the leaves as well
                x, y = t.substitute(x, m), t.substitute(y, m)
                return go(x, y, path, len(path), deep)
            if x.h == "conj" and y.h == "conj":
                # only where they differ
                xs, ys = (tuple(p for p in q.a[0] if p not in set(r.a[0])) for q, r in ((x, y), (y, x)))
                if done == len(path) == 0 and paired(list(xs), list(ys)):
                    return True
                out.append((path, t.mk("conj", xs), t.mk("conj", ys)))
                return False
            m = next((z for z in (extreme(x), extreme(y)) if z is not None), None)
            if m is not None and deep < 12:
                # the greatest or least of some, by the one it is
                z, rest = m.a[0][0], m.a[0][1:]
                w = t.minmax(m.h, list(rest))
                c = t.le(w, z) if m.h == "max" else t.le(z, w)
                pair_ = [t.substitute(q, {m: z}) for q in (x, y)], [t.substitute(q, {m: w}) for q in (x, y)]
                return go(t.ite(c, pair_[0][0], pair_[1][0]), t.ite(c, pair_[0][1], pair_[1][1]), path, done, deep + 1)
            if number(x) and number(y) and path:
                d = t.sub(x, y)
                sides = [t.lt(d, t.ZERO), t.lt(t.ZERO, d)] if d.h == "poly" else []
                if sides and all(q.h == "ite" and q.a[1].h != "ite" and q.a[2].h != "ite" and not possible(path + [(q.a[0], q.a[1] is TRUE)]) for q in sides):
                    return True
            parts = below(x, y)
            if parts is not None and deep < 12:
                n = len(out)
                same = all([go(p, q, path, done, deep + 1) for p, q in parts])
                if same:
                    return True
                if len(out) > n:
                    # reported as a whole, under the conditions of the first place found
                    first = out[n]
                    del out[n:]
                    out.append((first[0], x, y))
                return False
            if not linear(path):
                return True
            out.append((path, x, y))
            return False
        tops = [z.a[0] for z in (x, y) if z.h == "ite"]
        top = min(tops, key=t.order)
        same = True
        for v in (True, False):
            p = path + [(top, v)]
            if top.h in ("le", "lt", "eq0") and not possible(p):
                continue
            if not go(t.restrict(x, top, v), t.restrict(y, top, v), p, done, deep):
                same = False
        return same

    out.same = go(a, b, [])
    return out


class Differences(list):
    all = True
    same = False


def inner_diff(x, y):
    """Innermost differing subterm pair, for messages."""
    for _ in range(40):
        if x.h != y.h or len(x.a) != len(y.a):
            break
        cand = []
        for p, q in zip(x.a, y.a):
            if p is q or p == q:
                continue
            if isinstance(p, T) and isinstance(q, T):
                cand.append((p, q))
            elif isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q):
                for r, s in zip(p, q):
                    if isinstance(r, T) and isinstance(s, T) and r is not s:
                        cand.append((r, s))
            else:
                cand = []
                break
        if len(cand) != 1:
            break
        x, y = cand[0]
    return x, y


def short(x, n=260):
    s = t.show(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def loops_differ(p, q):
    """Is a difference inside two loops one of meaning?  p, q: the only place where they differ."""
    if suspects(p) or suspects(q) or p.h == "tup" and q.h == "tup":
        return False
    if p.h in ("le", "lt") or q.h in ("le", "lt"):
        # over the integers a < b is a <= b - 1
        if p.h not in ("le", "lt") or q.h not in ("le", "lt"):
            return False
        a = t.add2(p.a[0], t.ONE) if p.h == "lt" else p.a[0]
        b = t.add2(q.a[0], t.ONE) if q.h == "lt" else q.a[0]
        d = t.sub(a, b)
        return t.is_num_const(d) and d is not t.ZERO
    return True


def judge(code, ref):
    """'ok' | ('violated', text) | ('undecided', text)."""
    if code is ref:
        return "ok", ""
    ds = differences(code, ref)
    if ds.same:
        return "ok", ""
    ext = ext_names(ref)
    why = ""
    for path, x, y in ds:
        s = suspects(x, *[a for a, _ in path]) - suspects(y)
        e = ext_names(x) - ext
        if s or e:
            why = "untracked construct %s" % ", ".join(sorted(s | e))
            continue
        when = " and ".join(("" if v else "not ") + short(a, 90) for a, v in path)
        p, q = inner_diff(x, y)
        if any(z.h == "loop" for z in t.subterms(y)) and not loops_differ(p, q):
            why = "iterates in another way"
            continue
        return "violated", "%scomputes %s where the reference has %s" % (
            "when %s: " % when if when else "", short(p), short(q))
    return "undecided", why or "no decided difference"


def raise_map(s):
    r = {}
    for pc, v in s.raises:
        n = "?"
        if isinstance(v, T):
            n = v.a[0].a[0] if v.h == "call" and v.a and isinstance(v.a[0], T) and v.a[0].a else (
                v.a[0] if v.h == "obj" else v.a[0] if v.a and isinstance(v.a[0], str) else v.h)
        else:
            n = str(v)
        n = str(n).split(".")[-1]
        r[n] = t.OR(r.get(n, FALSE), pc)
    return {k: v for k, v in r.items() if v is not FALSE}


# -- evaluation ---------------------------------------------------------------------------------


class Evaluator:
    def __init__(self, ix):
        self.ix = ix

    def engine(self, drop=(), extra=()):
        return Engine(self.ix, boundary_set(extra, drop))

    def need_class(self, name):
        c = self.ix.cls(name)
        if c is None:
            raise Broken("class %s is gone" % name)
        return c

    def rename_fields(self, rc, cls):
        """Private storage is found through the public way in (constructor parameter or setter)."""
        ren = {}
        for field, via in rc.opts.get("FIELDS", {}).items():
            kind, _, what = via.partition(":")
            owner, _, what2 = what.partition(".")
            c = cls
            if what2:
                c, what = self.need_class(owner), what2
            e = self.engine()
            m = c.find("__init__") if kind == "ctor" else c.find(what)
            node = m and (m.node if kind == "ctor" else m.setter)
            if node is None:
                continue
            try:
                s = e.summary(node, c, c.module)
            except (Undecided, TooBig, OutOfBudget):
                continue
            if kind == "ctor":
                ps = [p.arg for p in node.args.posonlyargs + node.args.args][1:]
                target = t.mk("var", "$%d" % (ps.index(what) + 1)) if what in ps else t.mk("var", what)
            else:
                target = t.mk("var", "$1")
            hits = [f for (o, f), v in s.writes.items() if o is s.self_ and v is target]
            if len(hits) == 1 and hits[0] != field:
                ren[field] = hits[0]
        return ren

    def equations(self, name, only=None):
        """Obligations of one reference file."""
        mod, classes = load(self.ix, name)
        tasks = []
        for rc in classes:
            base = self.need_class(rc.name)
            targets = [base]
            if rc.opts.get("SUBCLASSES_ONLY"):
                targets = [c for c in base.all_subclasses()]
            if rc.opts.get("SUBCLASSES"):
                targets += [c for c in base.all_subclasses()]
            ren = {}
            for c in targets:
                ren = self.rename_fields(rc, c)
                for mname, alts in rc.members.items():
                    if only and mname not in only:
                        continue
                    for case in rc.opts.get("MEMBERS") or rc.opts.get("CASES", {}).get(mname, [None]):
                        tasks.append(lambda a=(mod, rc, c, mname, alts, ren, case): self.equation(*a))
        if not only:
            for f in mod.tree.body:
                if isinstance(f, ast.FunctionDef) and f.name.startswith("law_"):
                    tasks += self.laws(mod, f)
        if any(isinstance(x, ast.ImportFrom) and (x.module or "").startswith("jvspec.") for x in mod.tree.body):
            return spread(tasks)
        return [x() for x in tasks]

    def laws(self, mod, f):
        """One obligation, or one per case: @cases("i, j", [(0, 1), …]) opens the body with i, j = 0, 1."""
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "cases":
                names = ast.parse(ast.literal_eval(d.args[0]) + " = 0").body[0].targets
                out = []
                for v in ast.literal_eval(d.args[1]):
                    head = ast.Assign(names, ast.parse(repr(v), mode="eval").body, lineno=f.lineno, col_offset=0)
                    g = ast.FunctionDef(f.name, f.args, [ast.fix_missing_locations(head)] + f.body, f.decorator_list,
                                        lineno=f.lineno, col_offset=0)
                    g.type_params = []
                    tag = "[%s]" % (", ".join(str(x) for x in v) if isinstance(v, tuple) else v)
                    out.append(lambda g=ast.fix_missing_locations(g), tag=tag: self.law(mod, g, tag))
                return out
        return [lambda: self.law(mod, f)]

    def prepare(self, mod, f, drop=()):
        """The engine as the decorators of a law want it."""
        unroll, remembers = 0, False
        models = {}
        extra, inside = [], []  # @opaque("Class.member", …): calls the law does not look into
        for d in f.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "opaque":
                extra += [tuple(ast.literal_eval(a).split(".")) for a in d.args]
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "unroll":
                unroll = ast.literal_eval(d.args[0])  # rounds followed through loops over literal shapes
            if isinstance(d, ast.Name) and d.id == "transparent":
                inside += boundary_set()  # nothing is kept folded
            if isinstance(d, ast.Name) and d.id == "remembering":
                remembers = True  # cached properties are caches, not equations
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "inside":
                inside += [tuple(ast.literal_eval(a).split(".")) for a in d.args]  # members the law looks into
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "model":
                # @model("Class.member", "_stand_in"): what a member does, as far as this law is concerned
                homes = [mod] + [self.ix.modules[x.module] for x in mod.tree.body
                                 if isinstance(x, ast.ImportFrom) and x.module in self.ix.modules]
                stand, home = [(x, m) for m in homes for x in m.tree.body if getattr(x, "name", 0) == ast.literal_eval(d.args[1])][0]
                c, _, n = ast.literal_eval(d.args[0]).rpartition(".")
                if c in ("pulp",):
                    models["%s.%s" % (c, n)] = (stand, home)
                    continue
                if not c:
                    fn = self.ix.func(n)
                    if fn is None:
                        raise Broken("no function %s" % n)
                    models[fn.node] = (stand, home)
                    continue
                if self.need_class(c).members.get(n) is None:
                    raise Broken("%s.%s is not defined there" % (c, n))
                models[(c, n)] = (stand, home)
        e = self.engine((set(drop) | set(inside)) - set(extra), extra)
        e.unroll, e.remembers = unroll, remembers
        if unroll:
            e.max_seconds = 100
        e.models = models
        return e

    def law(self, mod, f, tag=""):
        """A scenario over the public interface: its first component must equal its second."""
        key = f.name + tag
        detail = ""
        unroll = any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "unroll" for d in f.decorator_list)
        gone = self.gone(mod, f)
        if gone:
            return Ob(key, "undecided", detail="private member not found: %s" % ", ".join(sorted(gone)))
        for drop in UNFOLD[:1] if unroll else UNFOLD:
            try:
                s = self.prepare(mod, f, drop).summary(f, None, mod)
                bad = t.OR(*raise_map(s).values()) if raise_map(s) else FALSE
                if s.ret is None or s.ret is UNDEF:
                    if bad is FALSE:
                        return Ob(key, "undecided", "", "no value")
                    st = "ok"
                else:
                    st, detail = judge(t.elem(s.ret, t.ZERO), t.elem(s.ret, t.ONE))
                if st == "ok" and bad is not FALSE:
                    st, detail = judge(bad, FALSE)
                    detail = "raises: " + detail
                where = sorted(i for i in s.inlined if not i[0].startswith(".."))
                if st == "ok":
                    return Ob(key, "ok", "", "equal to the reference", s.inlined)
            except (Undecided, TooBig, OutOfBudget, RecursionError) as x:
                st, detail, s = "undecided", "%s: %s" % (type(x).__name__, x), None
            except Exception as x:
                st, detail, s = "undecided", "internal %r" % (x,), None
            if st == "violated":
                return Ob(key, st, " ".join("%s:%s(%s)" % (a, c, b) for a, b, c in where)[:200], detail, s.inlined)
        return Ob(key, "undecided", "", detail)

    def gone(self, mod, f):
        """The private names a law looks at, itself or in what it calls on, that nothing in the sources goes by any more."""
        if not hasattr(self, "defined"):
            self.defined = {}
        homes = [mod] + [self.ix.modules[x.module] for x in mod.tree.body
                         if isinstance(x, ast.ImportFrom) and x.module in self.ix.modules and x.module.startswith("jvspec.")]
        tops = {}
        for m in reversed(homes):
            tops.update({x.name: (x, m) for x in m.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))})
        used, seen, todo, hooks, own_ = set(), set(), [f], set(), set()
        while todo:
            d = todo.pop()
            if isinstance(d, ast.ClassDef) and any(getattr(b, "id", "") not in tops for b in d.bases):
                # what it overrides of a class of the sources: private, and not called on itself
                own = {n.attr for n in ast.walk(d) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
                       and n.value.id == "self"}
                own_ |= own & {m.name for m in d.body if isinstance(m, ast.FunctionDef)}
                hooks |= {m.name for m in d.body if isinstance(m, ast.FunctionDef) and m.name.startswith("_")
                          and not m.name.startswith("__") and m.name not in own}
            for n in ast.walk(d):
                if isinstance(n, ast.Attribute) and n.attr.startswith("_") and not n.attr.startswith("__"):
                    used.add(n.attr)
                elif isinstance(n, ast.Name) and n.id in tops and n.id not in seen:
                    seen.add(n.id)
                    todo.append(tops[n.id][0])
        used |= hooks
        used -= own_
        if not used:
            return used
        for name, m in self.ix.modules.items():
            if name.startswith("jvspec.") and m not in homes or name in self.defined:
                continue
            ns = self.defined[name] = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    ns.add(n.attr)
                elif isinstance(n, ast.ClassDef):
                    over = name.startswith("jvspec.") and any(getattr(b, "id", "") not in tops for b in n.bases)
                    for b in n.body:
                        if over and isinstance(b, ast.FunctionDef) and b.name.startswith("_"):
                            continue
                        ns.add(getattr(b, "name", None))
                        for x in b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) else []:
                            ns.add(getattr(x, "id", None))
        mine = {"jvspec.%s" % m.name.rpartition(".")[2] if not m.name.startswith("jvspec.") else m.name for m in homes}
        known = set().union(*(ns for n, ns in self.defined.items() if not n.startswith("jvspec.") or n in mine))
        outside = set().union(*(ns for n, ns in self.defined.items() if not n.startswith("jvspec.")))
        return used - known | hooks - outside

    def equation(self, mod, rc, cls, mname, alts, ren, case=None):
        key = "%s.%s" % (cls.name, mname) + ("[%s]" % case if case else "")
        m = cls.find(mname)
        setter = any("setter" in r.decos for r in alts)
        if m is None:
            if any("optional" in r.decos for r in alts):
                return Ob(key, "ok", detail="not overridden: the language default applies")
            if mname.startswith("_") and not mname.startswith("__"):
                return Ob(key, "undecided", detail="private member not found")
            raise Broken("%s has no member %s" % (cls.name, mname))
        gone = set().union(*(self.gone(mod, r.node) for r in alts))
        if gone:
            return Ob(key, "undecided", self.where(m), "private member not found: %s" % ", ".join(sorted(gone)))
        last = None
        for drop in UNFOLD:
            for r in alts:
                try:
                    st, detail, where, inl = self.one(mod, rc, cls, m, r, ren, drop, case)
                except (Undecided, TooBig, OutOfBudget, RecursionError) as x:
                    st, detail, where, inl = "undecided", "%s: %s" % (type(x).__name__, x), self.where(m), ()
                except Broken:
                    raise
                except Exception as x:  # an engine defect is not evidence of anything
                    st, detail, where, inl = "undecided", "internal %r" % (x,), self.where(m), ()
                if st == "ok":
                    if "known" in r.decos:
                        return Ob(key, "known", where, ast.get_docstring(r.node) or "", inl)
                    return Ob(key, "ok", where, "equal to the reference", inl)
                if last is None or (last.status == "undecided" and st == "violated" and not drop):
                    last = Ob(key, st, where, detail, inl)
        return last

    def where(self, m):
        return "%s:%d" % (m.owner.module.rel, m.node.lineno)

    def one(self, mod, rc, cls, m, r, ren, drop, case=None):
        e = self.engine(drop)
        node = r.node
        if ren:
            node = rename(node, ren)
        extra = len(node.args.posonlyargs + node.args.args) - 1
        ptypes = {}
        code_node = m.setter if "setter" in r.decos else m.node
        off = 0 if m.kind == "static" else 1
        theirs = (code_node.args.posonlyargs + code_node.args.args)[off:] if code_node is not None else []
        for i, p in enumerate((node.args.posonlyargs + node.args.args)[1:]):
            ty = self.ix.type_of_ann(mod, p.annotation)
            if ty is None and i < len(theirs):
                ty = self.ix.type_of_ann(m.owner.module, theirs[i].annotation)
            if ty is not None:
                ptypes["$%d" % (i + 1)] = ty
        self_term = None
        if rc.opts.get("MEMBERS"):
            self_term = t.mk("enum", cls.qual, case)
        elif case:
            ptypes["$1"] = ("cls", self.need_class(case)) if case[0].isupper() else (case, None)
        instance = bool(rc.opts.get("INSTANCE"))
        mnode, mkind = m.node, m.kind
        if "setter" in r.decos:
            if m.setter is None:
                raise Broken("%s.%s has no setter" % (cls.name, m.name))
            mnode, mkind = m.setter, "method"
        code = e.summary(mnode, cls, m.owner.module, kind=mkind, nparams=extra, ptypes=ptypes, instance=instance,
                         self_term=self_term, novar=node.args.vararg is None, nokw=node.args.kwarg is None)
        inl = code.inlined
        e2 = self.engine(drop)
        e2.facts = e.facts
        ref = e2.summary(node, cls, mod, kind=mkind, nparams=extra, ptypes=ptypes, instance=instance,
                         self_term=self_term)
        where = "%s:%d %s.%s" % (m.owner.module.rel, m.node.lineno, cls.name, m.name)
        return self.compare(code, ref, r, where) + (where, inl)

    def compare(self, code, ref, r, where):
        pairs = []
        if "effects" not in r.decos or "returns" in r.decos:
            pairs.append(("value", code.ret, ref.ret))
        cr, rr = raise_map(code), raise_map(ref)
        for n in sorted(set(cr) | set(rr)):
            pairs.append(("raise %s" % n, cr.get(n, FALSE), rr.get(n, FALSE)))
        if "effects" in r.decos:
            for k in sorted(set(code.writes) | set(ref.writes), key=lambda k: (k[0].key, k[1])):
                o, f = k
                pairs.append(("%s.%s after" % (short(o, 60), f), code.writes.get(k, t.mk("field", o, f)),
                              ref.writes.get(k, t.mk("field", o, f))))
            for o in sorted(set(code.conts) | set(ref.conts), key=lambda o: o.key):
                pairs.append(("contents of %s after" % short(o, 60), code.conts.get(o, o), ref.conts.get(o, o)))
            pairs.append(("effects", code.events, ref.events))
        res = "ok", ""
        raised = t.OR(*cr.values(), *rr.values()) if cr or rr else FALSE
        for what, x, y in pairs:
            if x is None or y is None:
                return "undecided", "no value"
            st, d = judge(x, y)
            if st == "violated" and raised is not FALSE and not what.startswith("raise "):
                # what is left behind by a call that fails is not compared
                st, d = judge(t.constrain(x, t.NOT(raised)), t.constrain(y, t.NOT(raised)))
            if st == "violated":
                return st, "%s: %s" % (what, d)
            if st == "undecided":
                res = st, "%s: %s" % (what, d)
        return res


def rename(node, ren):
    import copy

    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and n.attr in ren:
            n.attr = ren[n.attr]
    return node

"""Rules that are not equations: each inspects the computed value graphs and effects for one structural fact."""
from __future__ import annotations

import ast

from . import terms as t
from .index import dotted
from .interp import Undecided
from .spec import Broken, Ob, judge, raise_map, short, suspects
from .terms import FALSE, OutOfBudget, T, TooBig, TRUE, UNDEF

FAIL = (Undecided, TooBig, OutOfBudget, RecursionError)


def need(ix, cls, member=None):
    c = ix.cls(cls)
    if c is None:
        raise Broken("class %s is gone" % cls)
    if member is None:
        return c
    m = c.find(member)
    if m is None:
        raise Broken("%s.%s is gone" % (cls, member))
    return c, m


def where(m, cls=None):
    return "%s:%d %s.%s" % (m.owner.module.rel, m.node.lineno, (cls or m.owner).name, m.name)


def summary(ev, cls, m, **kw):
    e = ev.engine()
    s = e.summary(m.node, cls, m.owner.module, kind=m.kind, **kw)
    s.engine = e
    return s


def snippet(ev, text, drop=(), cls=None, extra=(), unroll=0):
    """Summary of the last function of a piece of reference text that imports what it needs."""
    name = "jvspec._snippet_%s" % abs(hash(text))
    if name not in ev.ix.modules:
        ev.ix.add_text(name, text)
    m = ev.ix.modules[name]
    f = [x for x in m.tree.body if isinstance(x, ast.FunctionDef)][-1]
    e = ev.engine(drop, extra)
    e.unroll = unroll
    s = e.summary(f, cls, m)
    s.engine = e
    return s


# -- memoised distances -------------------------------------------------------------------------


def _leaves(x):
    return set(t.leaves(x))


LOSSY = {"bitop", "format", "fmt", "str", "hash", "int", "floordiv", "mod", "abs"}


def _key_verdict(path, a, b):
    """Does the key path identify the unordered pair {a, b}?  'ok' | 'lossy: ...' | 'unknown'."""
    ca, cb = t.mk("field", a, "coordinates"), t.mk("field", b, "coordinates")
    seen = set()
    bad = []

    def go(x):
        if x in (a, ca):
            seen.add("a")
            return
        if x in (b, cb):
            seen.add("b")
            return
        if x.h == "set":
            go(x.a[0])
            return
        if x.h == "tup":
            for y in x.a[0]:
                go(y)
            return
        if x.h in ("call",) and x.a[0].h == "builtin" and x.a[0].a[0] in ("frozenset", "tuple", "set") and len(x.a[1]) == 1:
            go(x.a[1][0])
            return
        if t.num(0) is x or not any(y in (a, b) for y in t.subterms(x)):
            return  # a constant component distinguishes nothing and confuses nothing
        if x.h == "elem" and (x.a[0] in (ca, cb, a, b)):
            bad.append("one coordinate only")
            return
        name = x.a[0].a[0] if x.h == "call" and x.a[0].h in ("builtin", "ext") and x.a[0].a else x.h
        if name in LOSSY or x.h in ("poly", "mono", "sum", "max", "min", "len"):
            bad.append("a lossy key (%s)" % name)
            return
        if isinstance(name, str) and name in ("round", "repr"):
            bad.append("a lossy key (%s)" % name)
            return
        bad.append("?")

    for x in path:
        go(x)
    deps = {y for x in path for y in t.subterms(x) if y in (a, b)}
    if len(deps) < 2:
        return "lossy: the key does not depend on both positions"
    if any(x != "?" for x in bad):
        # a lossy part is harmless beside the full pair
        if seen == {"a", "b"}:
            return "ok"
        return "lossy: " + [x for x in bad if x != "?"][0]
    if seen == {"a", "b"}:
        return "ok"
    return "unknown"


def _chain(x):
    """elem(elem(root, k1), k2) -> root, [k1, k2]"""
    keys = []
    while x.h == "elem" or x.h == "dget":
        keys.append(x.a[1])
        x = x.a[0]
    return x, keys[::-1]


def memo_distance(ix, ev):
    """Every answer is the metric of the two coordinates, directly or through a memo that identifies the pair."""
    out = []
    cls = need(ix, "GeometricSurface")
    fields = set()
    for name in ("distance", "time"):
        m = need(ix, "GeometricSurface", name)[1]
        key = "GeometricSurface.%s" % name
        try:
            s = summary(ev, cls, m, nparams=2, novar=True, nokw=True)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m), "%s" % x))
            continue
        self_, a, b = s.self_, t.mk("var", "$1"), t.mk("var", "$2")
        ca, cb = t.mk("field", a, "coordinates"), t.mk("field", b, "coordinates")
        good = set()
        for x, y in ("ab", "ba"):
            r = snippet(ev, "from jinete.models import Position\n\ndef metric(self, a: Position, b: Position):\n"
                            "    return self.metric(%s.coordinates, %s.coordinates)\n" % (x, y), cls=cls)
            good.add(r.ret)
        st, why = "ok", "metric or memo of the metric"
        paths = []
        has_metric = False
        if s.ret is None or s.ret is UNDEF:
            out.append(Ob(key, "undecided", where(m), "no value"))
            continue
        for leaf in _leaves(s.ret):
            if leaf in good:
                has_metric = True
                continue
            if leaf is UNDEF:
                continue
            root, keys = _chain(leaf)
            if keys:
                paths.append((root, keys))
                continue
            if suspects(leaf):
                st, why = "undecided", "untracked value %s" % short(leaf, 80)
            elif st != "violated":
                st, why = "violated", "may answer %s, which is not the metric of the two coordinates" % short(leaf, 160)
        stores = []
        for o, c in s.conts.items():
            for x in t.subterms(c):
                if x.h == "dictset":
                    root, keys = _chain(x.a[0])
                    if o is x.a[0] or root is _chain(o)[0] or x.a[0] is o:
                        stores.append((root, keys + [x.a[1]], x.a[2]))
        for root, keys, v in stores:
            for leaf in _leaves(v):
                if leaf in good:
                    continue
                r2, k2 = _chain(leaf)
                if k2 and r2 is root:
                    continue
                if v.h in ("dictset", "dictv", "ite"):
                    continue
                if st == "ok":
                    st, why = "violated", "remembers %s, which is not the metric of the two coordinates" % short(leaf, 160)
        if st == "ok" and not has_metric and not any(k for _, k in paths):
            st, why = "violated", "never applies the surface's metric"
        for root, keys in paths:
            fields.add(root.a[1] if root.h == "field" and root.a[0] is self_ else None)
            if st != "ok":
                break
            v = _key_verdict(keys, a, b)
            if v == "unknown":
                st, why = "undecided", "memo key %s" % ", ".join(short(k, 60) for k in keys)
            elif v != "ok":
                st, why = "violated", "memo looked up with %s: %s" % (", ".join(short(k, 60) for k in keys), v[7:])
            if st != "ok":
                break
            if root.h == "field" and root.a[0] is self_:
                continue
            if root.h in ("global", "const", "cfield", "classattr") or not any(y is self_ for y in t.subterms(root)):
                # shared by all surfaces: the key must tell the metrics apart
                if not any(y is self_ for k in keys for y in t.subterms(k)):
                    st, why = "violated", "the memo is shared by all surfaces whatever their metric"
        if st == "ok" and paths:
            st, why = _memo_agreement(paths, stores, a, b, ca, cb)
        out.append(Ob(key, st, where(m), why, s.inlined))
    out.append(_memo_ownership(ix, ev, cls, fields))
    return out


def _sub(x, m):
    return t.substitute(x, m)


def _memo_agreement(paths, stores, a, b, ca, cb):
    """The entry read must be the one written for the same pair (the metrics are symmetric)."""
    fv = {a: t.mk("var", "$a"), b: t.mk("var", "$b")}
    rev = {a: t.mk("var", "$b"), b: t.mk("var", "$a")}
    if not stores:
        return "undecided", "no store into the memo was found"
    canon = [{tuple(_sub(k, m) for k in ks) for _, ks, v in stores for m in (fv, rev) if len(ks) == len(paths[0][1])}]
    known = canon[0]
    for root, keys in paths:
        k = tuple(_sub(x, fv) for x in keys)
        if k in known:
            continue
        # position and coordinates identify each other
        norm = {t.mk("field", fv[a], "coordinates"): fv[a], t.mk("field", fv[b], "coordinates"): fv[b]}
        k2 = tuple(_sub(x, norm) for x in k)
        if k2 in {tuple(_sub(x, norm) for x in q) for q in known}:
            return "undecided", "memo read by position and written by coordinates"
        return "undecided", "memo read with a key no store uses"
    return "ok", "metric or memo of the metric"


def _memo_ownership(ix, ev, cls, fields):
    key = "memo table ownership"
    fields = {f for f in fields if f}
    if not fields:
        return Ob(key, "ok", "", "no memo table on the surface")
    m = cls.find("__init__")
    try:
        s = summary(ev, cls, m)
    except FAIL as x:
        return Ob(key, "undecided", where(m), "%s" % x)
    for f in sorted(fields):
        v = s.writes.get((s.self_, f))
        if v is None:
            if cls.find_const(f):
                return Ob(key, "violated", where(m), "%s is one table shared by every surface" % f)
            return Ob(key, "undecided", where(m), "%s is not set by the constructor" % f)
        for leaf in _leaves(v):
            fresh_ = leaf.h in ("dictv", "obj", "tup") or leaf is t.EMPTY or (
                leaf.h == "call" and leaf.a[0].h in ("ext", "builtin", "class"))
            if not fresh_:
                if leaf.h in ("var", "viastar"):
                    return Ob(key, "undecided", where(m), "%s comes from outside" % f)
                if leaf.h in ("global", "const", "cfield"):
                    return Ob(key, "violated", where(m), "%s is one table shared by every surface" % f)
                return Ob(key, "undecided", where(m), "%s starts as %s" % (f, short(leaf, 80)))
    # who else touches the table
    inside = {id(n) for c in cls.mro() for mm in c.members.values() for n in ast.walk(mm.node)}
    for mod in ix.modules.values():
        if mod.name.startswith("jvspec."):
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and n.attr in fields and id(n) not in inside:
                return Ob(key, "undecided", "%s:%d" % (mod.rel, n.lineno), "%s used outside the surface" % n.attr)
    return Ob(key, "ok", where(m), "a fresh table per surface")


def cached_decorators(ix, ev):
    """A memoising decorator keys by the equality of its arguments: positions of two surfaces may be equal."""
    out = []
    value_like = {"Position", "GeometricPosition", "Service"}
    for c in ix.classes:
        for n, m in c.members.items():
            for d in m.node.decorator_list:
                q = dotted(d.func if isinstance(d, ast.Call) else d) or ""
                if q.split(".")[-1] in ("lru_cache", "cache", "memoize"):
                    st = "violated" if c.name in value_like else "ok"
                    out.append(Ob("%s.%s memo" % (c.name, n), st, where(m),
                                  "remembered across surfaces by an equality that ignores the surface"))
    out.append(Ob("memoising decorators", "ok", "", "%d found on %d classes" % (len(out), len(ix.classes))))
    return out


# -- equality and hashing -----------------------------------------------------------------------


def _paths_from(x, root):
    """Maximal attribute paths from root inside x; () stands for root itself used whole, None for its identity."""
    out = set()

    def go(y):
        p, z = [], y
        if y.h == "id" and len(y.a) == 1 and y.a[0] is root:
            out.add(None)
            return
        while z.h in ("field", "prop") and len(z.a) == 2:
            p.append(z.a[1])
            z = z.a[0]
        if z is root:
            out.add(tuple(reversed(p)))
            return
        for w in t.children(y):
            go(w)

    go(x)
    return out


def hash_consistency(ix, ev):
    """Equal values hash equally: everything the hash reads is compared by the equality."""
    out = []
    for name in ("GeometricPosition", "Service"):
        c = need(ix, name)
        key = "%s.__hash__" % name
        h, q = c.find("__hash__"), c.find("__eq__")
        if q is None:
            out.append(Ob(key, "violated", c.module.rel, "no value equality"))
            continue
        if h is None or (h.owner is not q.owner and h.owner in q.owner.mro()):
            if "__hash__" in q.owner.consts or h is None:
                out.append(Ob(key, "violated", where(q), "equality without a hash: instances cannot be put in sets"))
                continue
        try:
            s = summary(ev, c, h)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(h), "%s" % x))
            continue
        paths = _paths_from(s.ret, s.self_)
        if None in paths:
            out.append(Ob(key, "violated", where(h), "the hash reads the object's identity, which equal instances never share"))
            continue
        st, why = "ok", "hash reads %s" % ", ".join(".".join(p) or "the object itself" for p in sorted(paths))
        if suspects(s.ret):
            st, why = "undecided", "untracked construct"
        else:
            for p in sorted(paths):
                if not p:
                    st, why = "undecided", "hash of the whole object"
                    continue
                chain = "".join("." + x for x in p)
                try:
                    r = snippet(ev, "from jinete.models import %s\n\ndef probe(a: %s, b: %s):\n"
                                    "    return a.__eq__(b) and not (a%s == b%s)\n" % (name, name, name, chain, chain))
                except FAIL as x:
                    st, why = "undecided", "%s" % x
                    continue
                v = t.as_bool(r.ret)
                if v is FALSE:
                    continue
                if suspects(v):
                    st, why = "undecided", "untracked construct"
                    continue
                st, why = "violated", "the hash reads %s, which equal instances need not share" % ".".join(p)
                break
        out.append(Ob(key, st, where(h), why, s.inlined))
    return out


IDENTITY = ("Trip", "Vehicle", "Stop", "Route", "PlannedTrip", "Planning", "Result", "Job", "Fleet")


def identity_equality(ix, ev):
    out = []
    for name in IDENTITY:
        c = need(ix, name)
        key = "%s equality" % name
        st, why, w = "ok", "the language default", c.module.rel
        for k in c.mro():
            for d in k.node.decorator_list:
                q = dotted(d.func if isinstance(d, ast.Call) else d) or ""
                if q.split(".")[-1] in ("dataclass", "s", "attrs", "define"):
                    eq = [x for x in getattr(d, "keywords", []) if x.arg == "eq"]
                    if not (eq and isinstance(eq[0].value, ast.Constant) and eq[0].value.value is False):
                        st, why, w = "violated", "generated value equality", k.module.rel
        q = c.find("__eq__")
        if q is not None and st == "ok":
            w = where(q)
            try:
                r = snippet(ev, "from jinete.models import %s\n\ndef probe(a: %s, b: %s):\n    return a == b\n" % (
                    name, name, name))
                s = summary(ev, c, q)
                v = s.ret
                one, two = s.self_, t.mk("var", "$1")
                if v in (t.mk("is", one, two), t.mk("is", two, one)) or _paths_from(v, one) <= {(), None}:
                    st, why = ("ok", "identity") if not suspects(v) else ("undecided", "untracked construct")
                elif suspects(v):
                    st, why = "undecided", "untracked construct"
                else:
                    st, why = "violated", "two different objects may be equal: %s" % short(v, 160)
            except FAIL as x:
                st, why = "undecided", "%s" % x
        out.append(Ob(key, st, w, why))
    return out


# -- order and multiplicity of effects ------------------------------------------------------------


def format_first(ix, ev):
    """The report is complete before the target is opened for writing."""
    c, m = need(ix, "FileStorer", "store")
    key = "FileStorer.store order"
    try:
        s = summary(ev, c, m)
    except FAIL as x:
        return [Ob(key, "undecided", where(m), "%s" % x)]
    opened = None
    formatted = None
    for i, (kind, x, pc) in enumerate(s.trace):
        if kind == "event" and any(y.h == "openfile" or y.h == "event" and y.a and y.a[0] == "openfile" or
                                   y.h == "tup" and y.a[0] and y.a[0][0] is t.const("openfile")
                                   for y in t.subterms(x)):
            opened = i if opened is None else opened
        if kind == "call" and x.h == "mcall" and x.a[1] == "format" and "formatter_cls" in repr(x.key):
            formatted = i
    if opened is None or formatted is None:
        return [Ob(key, "undecided", where(m), "opening or formatting not found")]
    if formatted > opened:
        return [Ob(key, "violated", where(m), "the target is truncated before the report is formatted: a failing "
                                              "formatter destroys the previous report")]
    return [Ob(key, "ok", where(m), "formatted, then opened", s.inlined)]


def load_once(ix, ev):
    """Fleet and job come from one loader, built once per run."""
    out = []
    for c in [ix.cls("Dispatcher")] + ix.cls("Dispatcher").all_subclasses() if ix.cls("Dispatcher") else []:
        m = c.members.get("run")
        if m is None or m.abstract:
            continue
        key = "%s.run loads once" % c.name
        try:
            s = summary(ev, c, m)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m), "%s" % x))
            continue
        counts = {}
        for kind, x, pc in s.trace:
            if kind == "call" and x.h == "call" and x.a[0].h == "field" and x.a[0].a[0] is s.self_:
                counts[x.a[0].a[1]] = counts.get(x.a[0].a[1], 0) + 1
            if kind == "call" and x.h == "mcall" and x.a[1] == "optimize":
                counts["optimize"] = counts.get("optimize", 0) + 1
        more = sorted(k for k, n in counts.items() if n > 1)
        if more:
            out.append(Ob(key, "violated", where(m), "%s happens %d times in one run" % (more[0], counts[more[0]])))
        elif "loader_cls" not in counts:
            out.append(Ob(key, "undecided", where(m), "construction of the loader not found"))
        else:
            out.append(Ob(key, "ok", where(m), "one loader, one optimisation", s.inlined))
    if not out:
        raise Broken("no dispatcher with a run method")
    return out


def kept(ix, ev, cname, members):
    """Repeated access gives the same object."""
    out = []
    for n in members:
        c, m = need(ix, cname, n)
        key = "%s.%s kept" % (cname, n)
        decos = {(dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1] for d in m.node.decorator_list}
        if m.kind == "cached" or decos & {"lru_cache", "cache"}:
            out.append(Ob(key, "ok", where(m), "cached"))
            continue
        try:
            s = summary(ev, c, m)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m), "%s" % x))
            continue
        st, why = "undecided", "%s" % short(s.ret, 100)
        if s.ret.h == "field":
            st, why = "ok", "stored"
        for (o, f), v in s.writes.items():
            if o is s.self_ and v is s.ret and any(l is t.mk("field", s.self_, f) for l in t.leaves(v)):
                st, why = "ok", "stored on first access"
        if st != "ok" and not suspects(s.ret) and all(
                l.h in ("obj", "call", "mcall") for l in t.leaves(s.ret)) and not s.writes:
            st, why = "violated", "every access builds a new one: %s" % short(s.ret, 120)
        out.append(Ob(key, st, where(m), why, s.inlined))
    return out

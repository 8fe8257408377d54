"""Effects: who owns what a computation changes."""
from __future__ import annotations

from . import terms as t
from .rules import FAIL, dotted, need, snippet, where
from .rules2 import call_arg, traced
from .rules3 import field_of, paths
from .spec import Broken, Ob, short, suspects
from .terms import FALSE, T, TRUE, UNDEF, ZERO

EDITS = [("Route", "clone"), ("Route", "append_planned_trip"), ("Route", "insert_stop"), ("Route", "insert_stop_at"),
         ("Route", "remove_stop"), ("Route", "remove_stop_at"), ("Route", "remove_trip"), ("Route", "flush"),
         ("Stop", "flush"), ("RouteCloner", "clone"), ("RouteCloner", "idx"), ("RouteCloner", "mapper"),
         ("Objective", "best"), ("Objective", "optimization_function"), ("Job", "objective")]
MUTATORS = {"append_planned_trip", "insert_stop", "insert_stop_at", "remove_stop", "remove_stop_at", "remove_trip"}


# -- shapes: what a clone shares ------------------------------------------------------------------

SHAPES = {
    "one after the other": ("_ p1 d1 p2 d2 _", 6),
    "nested": ("_ p1 p2 d2 d1 _", 6),
    "overlapping": ("_ p1 p2 d1 d2 _", 6),
    "back to back at the start": ("p1 d1 p2 d2", 4),
    "empty route": ("_ _", 2),
}


def shape_text(layout, ask=None):
    stops = layout.split()
    n = len(stops)
    src = ["from jinete.models import Route, RouteCloner, Stop, PlannedTrip, Vehicle, Trip, Position", "",
           "def probe(v: Vehicle, a: Position, b: Position, t1: Trip, t2: Trip%s):" % (", d: int" if ask is None else "")]
    for i in range(n):
        src.append("    s%d = Stop(v, %s, %s)" % (i, "ab"[i % 2], "s%d" % (i - 1) if i else "None"))
    pos = {x: i for i, x in enumerate(stops) if x != "_"}
    trips = sorted({x[1] for x in pos})
    for k in trips:
        src.append("    q%s = PlannedTrip(v, t%s, s%d, s%d)" % (k, k, pos["p" + k], pos["d" + k]))
    src.append("    r = Route(v, [%s])" % ", ".join("s%d" % i for i in range(n)))
    src.append("    k = r.clone(%s)" % ("d" if ask is None else ask))
    src.append("    c = k.stops")
    outs = ["(%s,)" % ", ".join("c[%d] is s%d" % (i, i) for i in range(n))]
    same = ["len(r.stops) == %d" % n] + ["r.stops[%d] is s%d" % (i, i) for i in range(n)]
    same += ["s%d.previous is %s" % (i, "s%d" % (i - 1) if i else "None") for i in range(n)]
    for k in trips:
        same += ["q%s.pickup is s%d" % (k, pos["p" + k]), "q%s.delivery is s%d" % (k, pos["d" + k]),
                 "len(s%d.pickup_planned_trips) == 1" % pos["p" + k],
                 "len(s%d.delivery_planned_trips) == 1" % pos["d" + k]]
    outs.append("(%s,)" % ", ".join(same))
    outs.append("(%s,)" % ", ".join(["k is not r", "len(c) == %d" % n] + [
        "c[%d].previous is c[%d]" % (i, i - 1) for i in range(1, n)] + [
        "c[%d].position is %s" % (i, "ab"[i % 2]) for i in range(n)] + [
        "len(c[%d].pickup_planned_trips) == %d" % (i, stops[i][0] == "p") for i in range(n)] + [
        "len(c[%d].delivery_planned_trips) == %d" % (i, stops[i][0] == "d") for i in range(n)]))
    src.append("    return " + ", ".join(outs))
    return "\n".join(src) + "\n", n, pos, trips, same


def at(x, d, k):
    return t.substitute(x, {d: t.num(k)})


def shared_shapes(ix, ev):
    """What cloning a route shares with the original, over small symbolic shapes and any starting index.

    Returns (obligations, slack): a stop at position i is shared only when the clone was asked from
    an index of at least i + slack."""
    c, m = need(ix, "Route", "clone")
    out, slack = [], None
    for name, (layout, _) in SHAPES.items():
        text, n, pos, trips, same = shape_text(layout)
        keys = ["clone of a route (%s) %s" % (name, w) for w in (
            "is fresh from the asked index on", "never splits a trip", "leaves the original alone", "is complete")]
        try:
            s = snippet(ev, text, unroll=n + 2)
        except FAIL as x:
            out += [Ob(k, "undecided", where(m), "%r" % x) for k in keys]
            slack = slack or None
            continue
        d = t.mk("var", "$6")
        if s.ret is None or s.ret.h != "tup" or len(s.ret.a[0]) != 3:
            out += [Ob(k, "undecided", where(m), "result not tracked") for k in keys]
            continue
        shared = [t.as_bool(x) for x in s.ret.a[0][0].a[0]]
        points = range(-1, n + 3)
        st = ["ok"] * 4
        why = ["for every index asked", "pickup and delivery stay on the same side", "nothing is written", "every stop and trip is there"]
        worst = None
        for k in points:
            v = [at(x, d, k) for x in shared]
            if any(x is not TRUE and x is not FALSE for x in v):
                st[0] = st[1] = "undecided"
                why[0] = why[1] = "sharing not decided when asked from %d" % k
                break
            on = [x is TRUE for x in v]
            for i in range(n):
                if on[i]:
                    worst = min(worst, k - i) if worst is not None else k - i
            if st[0] == "ok" and any(on[i] and i >= k for i in range(n)):
                i = max(i for i in range(n) if on[i])
                st[0], why[0] = "violated", "asked from %d, stop %d of the original is still in the clone" % (k, i)
            if st[1] == "ok":
                for q in trips:
                    if on[pos["p" + q]] != on[pos["d" + q]]:
                        st[1] = "violated"
                        why[1] = "asked from %d, the pickup and the delivery of one trip end up on different sides" % k
            if st[1] == "ok" and any(on[i + 1] and not on[i] for i in range(n - 1)):
                st[1], why[1] = "violated", "asked from %d, a shared stop follows a copied one" % k
        if worst is not None and st[0] != "undecided":
            slack = worst if slack is None else min(slack, worst)
        for k in points:
            try:
                s2 = snippet(ev, shape_text(layout, k)[0], unroll=n + 2)
            except FAIL as x:
                st[2] = st[3] = "undecided"
                why[2] = why[3] = "%r" % x
                break
            for j, row in ((2, s2.ret.a[0][1]), (3, s2.ret.a[0][2])):
                if st[j] != "ok":
                    continue
                vs = [t.as_bool(x) for x in row.a[0]]
                if any(x is FALSE for x in vs):
                    i = [i for i, x in enumerate(vs) if x is FALSE][0]
                    st[j] = "violated"
                    why[j] = "asked from %d: not (%s)" % (k, same[i] if j == 2 else "part %d of the copy" % i)
                elif any(x is not TRUE for x in vs):
                    st[j], why[j] = "undecided", "asked from %d" % k
        out += [Ob(k, a, where(m), b, s.inlined) for k, a, b in zip(keys, st, why)]
    return out, slack


# -- owners ---------------------------------------------------------------------------------------


def is_clone(x):
    return x.h == "mcall" and x.a[1] == "clone"


def clone_of(x):
    """(source route, asked index, idx observer) of a clone."""
    r = x.a[0]
    if r.h == "obj" and r.a[0].endswith(".RouteCloner"):
        d = dict(r.a[1])
        ask = d.get("desired_idx")
        if ask is None:
            nums = [v for k, v in d.items() if k not in ("route", "_idx", "_mapper")]
            ask = nums[0] if len(nums) == 1 else None
        return d.get("route"), ask, r
    return r, call_arg(x, 0, "idx") or ZERO, None


class Owners:
    """Where a term comes from: ('fresh'), ('own'), ('given'), ('clone', c), ('list', c, from), ('stop', c, from), ('?')."""

    def __init__(self, given, own=()):
        self.given = set(given)
        self.own = set(own)

    def of(self, x, binds, depth=0):
        if depth > 40:
            return ("?",)
        if x in self.given:
            return ("given", x)
        if x in self.own:
            return ("own",)
        h = x.h
        if is_clone(x):
            return ("clone", x)
        if h in ("new", "obj", "const", "set", "tup", "dictv"):
            return ("fresh",)
        if h in ("var", "fv"):
            if x in binds:
                return self.member(binds[x], binds, depth + 1)
            return ("?",)
        if h in ("field", "prop"):
            b = self.of(x.a[0], binds, depth + 1)
            if x.a[0].h == "obj":
                v = dict(x.a[0].a[1]).get(x.a[1])
                return self.of(v, binds, depth + 1) if v is not None else ("?",)
            if b[0] == "clone":
                if x.a[1] == "stops":
                    return ("list", b[1], ZERO)
                return ("?",)
            if b[0] == "stop":
                return b if x.a[1] in ("pickup_planned_trips", "delivery_planned_trips") else ("?",)
            return b if b[0] in ("given", "own") else ("?",)
        if h in ("elem", "tupget", "item"):
            b = self.of(x.a[0], binds, depth + 1)
            if b[0] == "list":
                return ("stop", b[1], x.a[1])
            return self.inside(b)
        if h == "slice":
            b = self.of(x.a[0], binds, depth + 1)
            if b[0] == "list":
                return ("list", b[1], x.a[1])
            return b
        if h in ("reversed", "sorted", "listof", "iter"):
            return self.of(x.a[0], binds, depth + 1)
        if h == "mcall":
            if x.a[1] == "remove_stop_at":
                b = self.of(x.a[0], binds, depth + 1)
                if b[0] == "clone":
                    return ("stop", b[1], call_arg(x, 0, "idx"))
                return b
            return ("?",)
        if h == "deepcopy":
            return ("fresh",)
        return ("?",)

    def member(self, x, binds, depth):
        """Where the members of a collection come from."""
        if depth > 40:
            return ("?",)
        if x.h in ("set", "sorted", "reversed", "listof", "iter"):
            return self.member(x.a[0], binds, depth + 1)
        if x.h == "tup":
            return self.worst([self.of(y, binds, depth + 1) for y in x.a[0]])
        if x.h in ("comp", "concat", "ite", "union"):
            rs = []
            for p in t.parts_of(x):
                b = dict(binds)
                b.update(zip(p.vs, p.spaces))
                rs += [self.of(l, b, depth + 1) for _, l in paths(p.elem)]
            return self.worst(rs)
        return self.inside(self.of(x, binds, depth + 1))

    @staticmethod
    def worst(rs):
        order = ["given", "?", "stop", "list", "clone", "own", "fresh"]
        return min(rs, key=lambda r: order.index(r[0]), default=("fresh",))

    @staticmethod
    def inside(b):
        if b[0] == "list":
            return ("stop",) + b[1:]
        return b



def lower(x, binds, facts=()):
    """A lower bound of a number whose bound variables range over index intervals, or None."""
    x = t.substitute(x, dict(facts)) if facts else x
    for _ in range(12):
        if x.h == "ite":
            a, b = lower(x.a[1], binds), lower(x.a[2], binds)
            if a is None or b is None:
                return None
            return a if t.le(a, b) is TRUE else b if t.le(b, a) is TRUE else None
        try:
            dd, cc = t.poly_of(x)
        except Exception:
            return None
        for mono, k in dd.items():
            if len(mono) == 1 and mono[0] in binds:
                sp = binds[mono[0]]
                while sp.h == "reversed":
                    sp = sp.a[0]
                if sp.h != "range":
                    return None
                to = sp.a[0] if k > 0 else t.sub(sp.a[1], t.ONE)
            elif len(mono) == 1 and mono[0].h == "len" and k > 0:
                to = ZERO
            elif len(mono) == 1 and mono[0].h == "max" and k > 0:
                to = mono[0].a[0][0]
            elif len(mono) == 1 and mono[0].h == "min" and k < 0:
                to = mono[0].a[0][0]
            else:
                continue
            x = t.add2(t.sub(x, t.mul(t.num(k), mono[0])), t.mul(t.num(k), to))
            break
        else:
            return x
    return None


def effects(s):
    """(kind, base, detail, condition, bindings) of everything a summary changes."""
    for (o, f), v in s.writes.items():
        o = s.settle(o)
        start = t.mk("field", o, f)
        c = t.OR(*[conj(path) for path, l in paths(v) if l is not start] or [FALSE])
        if c is not FALSE:
            yield "write", o, f, c, {}
    for o, v in s.conts.items():
        o = s.settle(o)
        if v is not o:
            yield "contents", o, None, TRUE, {}
    for p in t.parts_of(s.qwrites):
        for q, l in paths(p.elem):
            if l.h == "w":
                for b, cb in leaf_conds(l.a[0]):
                    start = t.mk("field", b, l.a[1])
                    c = t.OR(*[conj(q2) for q2, l2 in paths(l.a[2]) if l2 is not start] or [FALSE])
                    c = t.AND(p.cond, conj(q), cb, c)
                    if c is not FALSE:
                        yield "write", b, l.a[1], c, dict(zip(p.vs, p.spaces))
            elif l.h != "nowrite" and l is not t.NONE:
                yield "unknown", l, None, p.cond, dict(zip(p.vs, p.spaces))
    for p in t.parts_of(s.events):
        for q, l in paths(p.elem):
            if l.h == "mcall":
                yield "call", l.a[0], l, t.AND(p.cond, conj(q)), dict(zip(p.vs, p.spaces))


def leaf_conds(x):
    return [(l, conj(p)) for p, l in paths(x)]


def conj(path):
    c = TRUE
    for a, v in path:
        b = t.bool_atom(a)
        c = t.AND(c, b if v else t.NOT(b))
    return c


def touched(l, own, binds):
    """Lower bound of the index of the first stop that an editing call changes: (bound | None)."""
    n = l.a[1]
    if n == "insert_stop_at":
        return call_arg(l, 0, "idx")
    if n == "remove_stop_at":
        k = call_arg(l, 0, "idx")
        return t.add2(k, t.ONE) if k is not None else None
    if n in ("insert_stop", "append_planned_trip"):
        arg = call_arg(l, 0, "stop" if n == "insert_stop" else "planned_trip")
        # the delivery goes behind the pickup, so the pickup decides
        stops = [arg] if n == "insert_stop" else [field_of(arg, "pickup")]
        lows = []
        for s in stops:
            b = own.of(s, binds)
            prev = field_of(s, "previous")
            for _, x in paths(prev):
                if x.h in ("obj", "cyc", "new"):
                    continue  # behind the stop inserted just before
                o = own.of(x, binds)
                if o[0] == "stop" and o[1] is l.a[0] and o[2] is not None:
                    lows.append(t.add2(o[2], t.ONE))
                elif o[0] == "stop" and o[1] is l.a[0] or b[0] == "stop":
                    return None
                else:
                    return None
        return lows if lows else None
    return ZERO


def clear(c, k, cond, slack, binds=(), facts=()):
    """Is every stop of the clone c from index k on its own?  'ok' | 'violated' | 'undecided'."""
    if k is None:
        return "undecided"
    binds = dict(binds)
    src, ask, cloner = clone_of(c)
    definite = False
    if ask is not None and slack is not None:
        # stop i is shared only when ask - i >= slack
        d = lower(t.sub(k, ask), binds)
        if d is not None and t.lt(t.num(-slack), d) is TRUE:
            return "ok"
        if d is not None and t.is_num_const(d):
            definite = True
    if cloner is not None:
        low = k
        if k in binds:
            sp = binds[k]
            while sp.h == "reversed":
                sp = sp.a[0]
            if sp.h == "range":
                low = sp.a[0]
        for h in ("prop", "field"):
            idx = t.mk(h, cloner, "idx")
            if t.le(idx, low) is TRUE:
                return "ok"
            if low.h == "max" and idx in low.a[0]:
                return "ok"
            if cond is not TRUE:
                beyond = t.add2(t.add2(low, t.ONE), t.length(t.mk("var", "$beyond")))
                if t.substitute(cond, {idx: beyond}) is FALSE:
                    return "ok"
        if any(y.h in ("prop", "field") and y.a[1] == "idx" for y in t.subterms(low)):
            return "undecided"
    if slack is None or ask is None:
        return "undecided"
    # the first instance of every interval is there
    w = t.substitute(t.sub(k, ask), dict(facts)) if facts else t.sub(k, ask)
    for _ in range(6):
        m = {}
        for v in t.free_vars(w):
            sp = binds.get(v)
            while sp is not None and sp.h == "reversed":
                sp = sp.a[0]
            if sp is not None and sp.h == "range":
                m[v] = sp.a[0]
        if not m:
            break
        w = t.substitute(w, m)
    if t.is_num_const(w) and w.a[0] <= -slack and not suspects(cond):
        return "violated"
    free = t.is_num_const(low if cloner is not None else k) and ask is not None and not t.is_num_const(ask)
    if (definite or free) and not suspects(ask) and not suspects(cond):
        return "violated"
    return "undecided"


def isolated(s, own, slack, allow=(), facts=()):
    """('ok' | 'violated' | 'undecided', text) for all effects of a summary."""
    st, why, n = "ok", "", 0
    for kind, base, d, cond, binds in effects(s):
        if cond is FALSE:
            continue
        for path, b in paths(base):
            c = t.AND(cond, conj(path))
            if c is FALSE:
                continue
            if kind == "call" and d.a[1] not in MUTATORS:
                continue
            n += 1
            o = own.of(b, binds)
            what = {"write": "%s.%s is written", "contents": "%s changes%.0s", "call": "%s is edited by %s",
                    "unknown": "%s%.0s"}[kind] % (short(b, 120), d if kind != "call" else d.a[1])
            if kind == "write" and d in allow:
                continue
            if o[0] == "given":
                return "violated", what + ": it belongs to what was given", n
            if o[0] == "fresh" or o[0] == "own":
                continue
            if o[0] == "clone":
                if kind == "call":
                    lows = touched(d, own, binds)
                    rs = [clear(o[1], x, c, slack, binds, facts) for x in (lows if isinstance(lows, list) else [lows])]
                    r = "violated" if "violated" in rs else "undecided" if "undecided" in rs else "ok"
                    if r == "violated":
                        return r, what + ", at a stop that the clone shares with the original", n
                    if r != "ok":
                        st, why = "undecided", what
                continue
            if o[0] == "list":
                continue  # the list itself is the clone's own
            if o[0] == "stop":
                r = clear(o[1], o[2], c, slack, binds, facts)
                if r == "violated":
                    return r, what + ", and the clone may share it with the original", n
                if r != "ok":
                    st, why = "undecided", what
                continue
            st, why = "undecided", what
    return st, why, n


# -- rules ----------------------------------------------------------------------------------------


def given_untouched(ix, ev):
    """Computing insertions changes neither the given route nor its stops, trips or planned trips."""
    out, slack = shared_shapes(ix, ev)
    base, _ = need(ix, "InsertionStrategy", "compute")
    seen = 0
    for c in [base] + concrete(base):
        m = c.find("compute")
        key = "%s.compute leaves the given route alone" % c.name
        try:
            s = traced(ev, c, m, extra=EDITS, exact=True)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m, c), "%r" % x))
            continue
        own = Owners([t.mk("var", "$1"), t.mk("var", "$2")], [s.self_])
        # neighbouring positions are the smallest instance of previous_idx < following_idx
        facts = {t.mk("var", "$4"): t.add2(t.mk("var", "$3"), t.ONE)} if m.owner is base else {}
        st, why, n = isolated(s, own, slack, facts=facts)
        out.append(Ob(key, st, where(m, c), why or "%d effects, all on clones beyond what they share or on new objects" % n,
                      s.inlined))
        # what is returned is never the given route itself
        same = {l for k in (s.ret,) if isinstance(k, T) for l in t.leaves(k) if l is t.mk("var", "$1")}
        for p in t.parts_of(s.ret) if isinstance(s.ret, T) and s.ret.h != "ite" else ():
            if any(l is t.mk("var", "$1") for _, l in paths(p.elem)):
                same.add(1)
        key = "%s.compute returns other routes than the given one" % c.name
        out.append(Ob(key, "violated" if same else "ok", where(m, c), "" if not same else "returns the given route", s.inlined))
    return out


def concrete(c):
    return sorted((x for x in c.all_subclasses() if not x.name.startswith("_") and not x.module.name.startswith("jvspec")),
                  key=lambda x: x.name)


def copies(ix, ev):
    """Cloning, local search and insertion work on copies."""
    out = []
    rc, rm = need(ix, "Route", "clone")
    c, m = need(ix, "LocalSearchStrategy", "improve")
    for cc in concrete(c):
        text = ("from jinete.models import Result\nfrom jinete.algorithms import %s\n\n"
                "def probe(r: Result):\n    return %s(r).result\n" % (cc.name, cc.name))
        key = "%s works on a copy of the result" % cc.name
        init = cc.find("__init__") or m
        try:
            s = snippet(ev, text)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(init, cc), "%r" % x))
            continue
        r = t.mk("var", "$1")
        st, why = "ok", "a deep copy"
        for _, l in paths(s.ret):
            if l is r:
                st, why = "violated", "works on the given result itself"
            elif l.h != "deepcopy":
                if l.h == "obj":
                    pl = dict(l.a[1]).get("planning")
                    if pl is not None and pl.h == "deepcopy":
                        continue
                    shallow = pl is not None and pl.h == "field" and pl.a[0] is r
                else:
                    shallow = l.h == "copy" or l.h == "call" and l.a[0].h == "ext" and l.a[0].a[0].endswith(".copy")
                if st == "ok":
                    st, why = ("violated", "a shallow copy shares the routes") if shallow else ("undecided", short(l, 120))
        out.append(Ob(key, st, where(init, cc), why, s.inlined))
    # the search never asks for a strategy that works in place
    c, m = need(ix, "LocalSearchAlgorithm", "optimize")
    key = "local search asks for copies"
    try:
        s = traced(ev, c, m, exact=True)
        st, why = "ok", "with_copy keeps its default"
        n = 0
        for root in [s.ret] + [x for _, x, _ in s.trace]:
            for y in t.subterms(root) if isinstance(root, T) else ():
                if y.h == "call" and y.a[0].h == "field" and y.a[0].a[1] == "strategy_cls":
                    n += 1
                    v = dict(y.a[2]).get("with_copy") if len(y.a) > 2 and y.a[2] else None
                    if v is None and len(y.a[1]) > 1:
                        v = y.a[1][1]
                    if v is not None:
                        b = t.as_bool(v)
                        if b is FALSE:
                            st, why = "violated", "the strategy is told to change the result in place"
                        elif b is not TRUE and st == "ok":
                            st, why = "undecided", short(v, 100)
        if not n:
            st, why = "undecided", "no strategy call found"
        out.append(Ob(key, st, where(m, c), why, s.inlined))
    except FAIL as x:
        out.append(Ob(key, "undecided", where(m, c), "%r" % x))
    # iterators copy the routes they start from
    c, _ = need(ix, "InsertionIterator", "__init__")
    for cc in concrete(c):
        key = "%s starts from copies of the given routes" % cc.name
        init = cc.find("__init__")
        text = ("from jinete.models import Fleet, Job, Route\nfrom jinete.algorithms import %s\nfrom typing import Set\n\n"
                "def probe(f: Fleet, j: Job, routes: Set[Route]):\n    return %s(fleet=f, job=j, routes=routes).routes_container\n"
                % (cc.name, cc.name))
        try:
            s = snippet(ev, text, extra=EDITS + [("InsertionStrategy", "compute"), ("RankingInsertionIterator", "_initialize_ranking")])
        except FAIL as x:
            out.append(Ob(key, "undecided", where(init, cc), "%r" % x))
            continue
        own = Owners([t.mk("var", "$3")])
        st, why = "ok", "deep copies"
        vals = []
        for path, l in paths(s.ret):
            if any(a.h == "isnone" and a.a[0] is t.mk("var", "$3") and v for a, v in path):
                continue
            if l.h == "dictcomp":
                for p in t.parts_of(l.a[0]):
                    v = t.elem(p.elem, t.ONE)
                    vals += [(x, dict(zip(p.vs, p.spaces))) for _, x in paths(v)]
            elif l.h == "dictv":
                vals += [(x, {}) for _, x in l.a[0]]
            else:
                st, why = "undecided", short(l, 120)
        for v, binds in vals:
            o = own.of(v, binds)
            if o[0] == "given":
                st, why = "violated", "keeps the given route %s" % short(v, 80)
            elif o[0] != "fresh" and st == "ok":
                st, why = "undecided", short(v, 120)
        if not vals and st == "ok":
            st, why = "undecided", short(s.ret, 120)
        out.append(Ob(key, st, where(init, cc), why, s.inlined))
    # copying a route, a stop or a plan is never customised into sharing
    for name in ("Route", "Stop", "PlannedTrip", "Planning", "Result"):
        cc = ix.cls(name)
        if cc is None:
            raise Broken("class %s is gone" % name)
        for hook in ("__deepcopy__", "__copy__", "__reduce__", "__reduce_ex__", "__getstate__", "__getnewargs__"):
            h = cc.find(hook)
            if h is None:
                continue
            key = "%s.%s makes a copy" % (name, hook)
            try:
                s = traced(ev, cc, h, exact=True)
                same, st = False, "ok"
                for _, l in paths(s.ret):
                    o = Owners([s.self_]).of(l, {})
                    if o[0] == "clone":
                        l2 = clear(l, ZERO, TRUE, 2)
                    else:
                        l2 = {"given": "violated", "fresh": "ok"}.get(o[0], "undecided")
                        if o[0] == "fresh" and name in ("Route", "Planning") and l.h == "obj":
                            v = dict(l.a[1]).get("stops" if name == "Route" else "routes")
                            if v is not None and v.h == "field" and v.a[0] is s.self_:
                                l2 = "violated"
                            elif v is None or v.h != "deepcopy":
                                l2 = "undecided"
                    if l2 == "violated":
                        st, same = "violated", True
                    elif l2 != "ok" and st == "ok":
                        st = "undecided"
            except FAIL as x:
                st, same = "undecided", False
            out.append(Ob(key, st, where(h, cc), "deep copies share the object itself" if same else "copies what it holds" if st == "ok" else "customised copying"))
    return out

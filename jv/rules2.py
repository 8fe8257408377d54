"""Rules about the structure of routes and the coherence of remembered values."""
from __future__ import annotations

import ast

from . import terms as t
from .rules import FAIL, dotted, need, snippet, summary, where
from .spec import Ob, Broken, judge, short, suspects
from .terms import FALSE, T, TRUE, UNDEF


def traced(ev, cls, m, extra=(), drop=(), **kw):
    e = ev.engine(drop, extra)
    s = e.summary(m.node, cls, m.owner.module, kind=m.kind, **kw)
    s.engine = e
    return s


def call_arg(x, i, name):
    """Argument of an mcall term, by position or keyword."""
    for k, v in x.a[3]:
        if k == name:
            return v
    return x.a[2][i] if i < len(x.a[2]) else None


# -- planning and removing trips ------------------------------------------------------------------


def append_planned_trip(ix, ev):
    """Planning a trip inserts its pickup stop, then its delivery stop, each once."""
    c, m = need(ix, "Route", "append_planned_trip")
    key = "Route.append_planned_trip"
    try:
        s = traced(ev, c, m, extra=[("Route", "insert_stop"), ("Route", "insert_stop_at")], nparams=1)
    except FAIL as x:
        return [Ob(key, "undecided", where(m), "%s" % x)]
    p = t.mk("var", "$1")
    want = [t.mk("field", p, "pickup"), t.mk("field", p, "delivery")]
    calls = []
    for kind, x, pc in s.trace:
        if kind == "call" and x.h == "mcall" and x.a[1] in ("insert_stop", "insert_stop_at"):
            a = call_arg(x, 0 if x.a[1] == "insert_stop" else 1, "stop")
            calls.append((x.a[0], a, pc))
    raw = any(f == "previous" for _, f in s.writes) or any(True for o in s.conts if o.h == "field" and o.a[1] == "stops")
    if any(suspects(a) or suspects(pc) for _, a, pc in calls if a is not None) or raw or not calls and (s.qwrites is not t.EMPTY):
        return [Ob(key, "undecided", where(m), "insertions not tracked")]
    st, why = "ok", "pickup, then delivery"
    got = [a for _, a, _ in calls]
    cond = {}
    for _, a, pc in calls:
        cond[a] = t.OR(cond.get(a, FALSE), pc)
    for w, n in zip(want, ("pickup", "delivery")):
        if cond.get(w, FALSE) is FALSE:
            st, why = "violated", "the %s stop is never inserted" % n
        elif cond[w] is not TRUE and st == "ok":
            st, why = "violated", "the %s stop is inserted only when %s" % (n, short(cond[w], 120))
    if st == "ok" and got != want:
        if got == want[::-1]:
            st, why = "violated", "the delivery stop is inserted before its predecessor, the pickup stop"
        else:
            st, why = "undecided", "insertions: %s" % ", ".join(short(a, 60) for a in got)
    if st == "ok" and any(o is not s.self_ for o, _, _ in calls):
        st, why = "violated", "inserts into another route"
    return [Ob(key, st, where(m), why, s.inlined)]


def remove_trip(ix, ev):
    """Removing a trip removes, from the back, exactly the stops that pick it up or deliver it."""
    c, m = need(ix, "Route", "remove_trip")
    key = "Route.remove_trip"
    try:
        s = traced(ev, c, m, extra=[("Route", "remove_stop_at")], nparams=1)
        r = snippet(ev, "from jinete.models import Route, Trip\n\ndef probe(self: Route, idx: int, trip: Trip):\n"
                        "    return trip in self.stops[idx].trips\n", cls=c)
    except FAIL as x:
        return [Ob(key, "undecided", where(m), "%s" % x)]
    calls = [(x, pc) for kind, x, pc in s.trace if kind == "event" and x.h == "mcall" and x.a[1] == "remove_stop_at"]
    if not calls:
        if s.conts or s.writes or s.qwrites is not t.EMPTY or suspects(s.events):
            return [Ob(key, "undecided", where(m), "removals not tracked")]
        return [Ob(key, "violated", where(m), "no stop is removed")]
    if s.conts or suspects(s.events):
        return [Ob(key, "undecided", where(m), "removals not tracked")]
    spaces, st, why = [], "ok", "descending, every stop that serves the trip"
    # the condition, over the index
    total = FALSE
    i = t.mk("var", "$i")
    for p in t.parts_of(s.events):
        if not (p.elem.h == "mcall" and p.elem.a[1] == "remove_stop_at"):
            return [Ob(key, "undecided", where(m), "other effects")]
        a = call_arg(p.elem, 0, "idx")
        if len(p.vs) != 1 or a is not p.vs[0]:
            return [Ob(key, "undecided", where(m), "removes %s" % short(a, 80))]
        spaces.append(p.spaces[0])
        total = t.OR(total, t.substitute(p.cond, {p.vs[0]: i}))
    n = t.length(t.mk("field", s.self_, "stops"))
    up = t.range_(t.ZERO, n)
    down = t.mk("reversed", up)
    want = t.substitute(r.ret, {t.mk("var", "$1"): i, t.mk("var", "$2"): t.mk("var", "$1")})
    st2, d = judge(t.as_bool(total), t.as_bool(want))
    if any(x is up for x in spaces):
        st, why = "violated", "removes while walking forwards: the indices behind a removed stop have moved"
    elif any(x is not down for x in spaces):
        st, why = "undecided", "walks %s" % short(spaces[0], 80)
    if st2 != "ok" and st == "ok":
        st, why = st2, d
    return [Ob(key, st, where(m), why, s.inlined)]


def clone(ix, ev):
    """A cloned stop keeps place, vehicle, explicit start and trips, and hangs behind the previous cloned stop."""
    c, m = need(ix, "RouteCloner", "clone")
    rc, rm = need(ix, "Route", "clone")
    out = []
    extra = [("RouteCloner", n) for n in ("idx", "mapper") if c.find(n) is not None]
    key = "RouteCloner.clone"
    try:
        s = traced(ev, c, m, extra=extra)
    except FAIL as x:
        return [Ob(key, "undecided", where(m), "%s" % x)]
    made = set()
    for k in (s.ret, s.qwrites, s.events):
        if isinstance(k, T):
            made |= {x for x in t.subterms(k) if x.h == "obj" and x.a[0].endswith(".Stop")}
    if not made:
        out.append(Ob(key, "undecided", where(m), "no cloned stop found"))
    mapper = t.mk("prop", s.self_, "mapper") if False else None
    stops = [x for x in made]
    for f, how in (("position", "place"), ("vehicle", "vehicle"), ("_starting_time", "explicit start"),
                   ("pickup_planned_trips", "pickups"), ("delivery_planned_trips", "deliveries"),
                   ("previous", "predecessor")):
        k2 = "cloned stop keeps its %s" % how
        st, why = ("ok", "copied") if stops else ("undecided", "no cloned stop found")
        for x in stops:
            d = dict(x.a[1])
            v = d.get(f)
            if v is None:
                if f in ("_starting_time",):
                    # renamed storage: every other public fact is still checked
                    st, why = "undecided", "storage of the start not found"
                else:
                    st, why = "undecided", "no %s" % f
                continue
            src = {y.a[0] for y in t.subterms(d.get("position") or v) if y.h == "field" and y.a[1] == "position"}
            leaves = set(t.leaves(v))
            if f in ("position", "_starting_time", "vehicle"):
                for y in leaves:
                    if y.h == "field" and y.a[1] == f:
                        continue
                    if f == "vehicle" and "vehicle" in short(y):
                        continue
                    if suspects(y) - {"opaque:"} and y.h not in ("const",):
                        st, why = "undecided", short(y, 100)
                    else:
                        st, why = "violated", "the clone's %s is %s" % (how, short(y, 120))
            elif f in ("pickup_planned_trips", "delivery_planned_trips"):
                other = "delivery_planned_trips" if f[0] == "p" else "pickup_planned_trips"
                reads = {y.a[1] for y in t.subterms(v) if y.h == "field" and y.a[1] in (f, other)}
                comps = [y for y in t.subterms(v) if y.h == "comp"]
                if reads == {f}:
                    # the space must be the source stop's own set, unfiltered, and each trip mapped to a new one
                    for y in comps:
                        if any(q.h == "field" and q.a[1] == f for q in y.a[0]):
                            if y.a[1] is not TRUE:
                                st, why = "violated", "only some %s are cloned: %s" % (how, short(y.a[1], 100))
                            if y.a[2].h == "bv":
                                st, why = "violated", "the clone shares its planned trips with the original"
                    if v.h == "field":
                        st, why = "violated", "the clone shares its set of %s with the original" % how
                elif other in reads and f not in reads:
                    st, why = "violated", "the clone's %s come from the %s" % (how, other)
                elif not reads and (v is t.set_of(t.EMPTY) or v is t.EMPTY):
                    st, why = "violated", "the clone has no %s" % how
                else:
                    st, why = "undecided", short(v, 100)
            elif f == "previous":
                last = [y for y in leaves if y.h == "elem"]
                if any(y.h == "field" and y.a[1] == "previous" for y in leaves):
                    st, why = "violated", "the clone hangs behind the original predecessor"
                elif leaves == {t.NONE}:
                    st, why = "violated", "the clone has no predecessor"
                elif not last:
                    st, why = "undecided", short(v, 100)
                else:
                    for y in last:
                        d2 = t.sub(y.a[1], t.length(y.a[0]))
                        if t.is_num_const(d2) and d2.a[0] != -1:
                            st, why = "violated", "the clone hangs behind the stop at %s" % short(y.a[1], 80)
        out.append(Ob(k2, st, where(m), why, s.inlined))
    # Route.clone is that cloner
    try:
        s = traced(ev, rc, rm, extra=extra + [("RouteCloner", "clone")], nparams=1)
        st, why = "undecided", short(s.ret, 120)
        for kind, x, pc in s.trace:
            pass
        if s.ret is not None and s.ret.h == "mcall" and s.ret.a[1] == "clone":
            o = s.ret.a[0]
            if o.h == "obj":
                d = dict(o.a[1])
                vals = set(d.values())
                if s.self_ not in vals:
                    st, why = "violated", "clones another route"
                elif t.mk("var", "$1") not in vals:
                    st, why = "violated", "ignores the requested index"
                else:
                    st, why = "ok", "the route's own cloner at the requested index"
        out.append(Ob("Route.clone", st, where(rm), why, s.inlined))
    except FAIL as x:
        out.append(Ob("Route.clone", "undecided", where(rm), "%s" % x))
    return out


# -- remembered values ----------------------------------------------------------------------------

MUTABLE = {"previous", "pickup_planned_trips", "delivery_planned_trips", "_starting_time", "stops", "pickup",
           "delivery", "routes", "planning", "_planned_trips"}
IMMUTABLE_CLASSES = {"Trip", "Service", "Vehicle", "Position", "GeometricPosition", "Surface", "GeometricSurface",
                     "Job", "Fleet"}


def cached_members(ix, cls):
    """Members of cls (inherited ones included) whose value is remembered on the instance."""
    out = {}
    for c in reversed(cls.mro()):
        for n, m in c.members.items():
            if m.kind == "cached":
                out[n] = m
            elif n in out:
                del out[n]
    return out


def depends_on_plan(ev, cls, m):
    """Does the value depend on anything that planning changes?  None: not known."""
    from .spec import BOUNDARY

    drop = {(c, x) for c, ms in BOUNDARY.items() for x in ms.split()}
    try:
        e = ev.engine(drop)
        s = e.summary(m.node, cls, m.owner.module, kind=m.kind)
    except FAIL:
        return None
    if s.ret is None or suspects(s.ret):
        return None
    for y in t.subterms(s.ret):
        if y.h == "field" and (y.a[1] in MUTABLE or y.a[1].startswith("_start")):
            return True
        if y.h in ("prop", "mcall", "call"):
            return True
    return False


def stale_candidates(ix, ev):
    """class name -> remembered members that planning can change."""
    out = {}
    for n in ("Stop", "PlannedTrip", "Route"):
        c = need(ix, n)
        out[n] = sorted(k for k, m in cached_members(ix, c).items() if depends_on_plan(ev, c, m) is not False)
    return out


PLAN_CLASSES = ("Stop", "PlannedTrip", "Route", "Planning", "Result")


def no_frozen_memo(ix, ev):
    """Nothing that planning can change is remembered where no flush reaches it."""
    out = []
    n = 0
    for name in PLAN_CLASSES:
        c = need(ix, name)
        for k in [c] + c.all_subclasses():
            for mn, m in k.members.items():
                key = "%s.%s memo" % (k.name, mn)
                decos = {(dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1]
                         for d in m.node.decorator_list}
                n += 1
                if decos & {"lru_cache", "cache", "memoize"}:
                    d = depends_on_plan(ev, k, m)
                    if d:
                        out.append(Ob(key, "violated", where(m, k), "remembered for ever although planning changes it"))
                    elif d is None:
                        out.append(Ob(key, "undecided", where(m, k), "remembered; dependence not tracked"))
                elif m.kind == "cached" and name in ("Planning", "Result"):
                    d = depends_on_plan(ev, k, m)
                    if d:
                        out.append(Ob(key, "violated", where(m, k), "remembered and never forgotten although the routes change"))
                    elif d is None:
                        out.append(Ob(key, "undecided", where(m, k), "remembered; dependence not tracked"))
    out.append(Ob("members of %s" % ", ".join(PLAN_CLASSES), "ok", "", "%d members" % n))
    return out


def pieces(inv):
    """The invalidations as a set of (space terms, condition, object, key)."""
    return {p for p in t.parts_of(inv)} if False else t.parts_of(inv)


def covered(inv, required):
    """Which of the required (kind, object or collection, key) are not invalidated on every path?"""
    have = {}
    for p in t.parts_of(inv):
        if p.elem.h != "inval":
            continue
        o, k = p.elem.a[0], p.elem.a[1]
        k = k.a[0] if isinstance(k, T) else k
        if not p.vs:
            kk = ("one", o, k)
        elif len(p.vs) == 1 and o is p.vs[0]:
            kk = ("all", p.spaces[0], k)
        else:
            continue
        have[kk] = t.OR(have.get(kk, FALSE), p.cond)
    return [(r, have.get(r, FALSE)) for r in required if have.get(r, FALSE) is not TRUE]


def stop_needs(cands, o):
    r = [("one", o, k) for k in cands["Stop"]]
    for f in ("pickup_planned_trips", "delivery_planned_trips"):
        r += [("all", t.mk("field", o, f), k) for k in cands["PlannedTrip"]]
    return r


def describe(r):
    kind, o, k = r
    return "%s of %s" % (k, short(o, 60) if kind == "one" else "each of " + short(o, 60))


HEAD = "from jinete.models import PlannedTrip, Position, Route, Stop, Trip, Vehicle\n\n"


def coherence(ix, ev):
    """Every way to change a plan forgets every remembered value the change can affect."""
    out = []
    cands = stale_candidates(ix, ev)
    stop_c, route_c, pt_c = need(ix, "Stop"), need(ix, "Route"), need(ix, "PlannedTrip")

    def direct(cls, name, req, setter=False, nparams=0, extra_ok=None):
        m = cls.find(name)
        key = "%s.%s forgets" % (cls.name, name)
        if m is None:
            raise Broken("%s.%s is gone" % (cls.name, name))
        node = m.setter if setter else m.node
        if node is None:
            raise Broken("%s.%s has no setter" % (cls.name, name))
        try:
            e = ev.engine()
            s = e.summary(node, cls, m.owner.module, kind="method", nparams=nparams)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m), "%s" % x))
            return
        bad = covered(s.inval, req(s))
        if not bad:
            out.append(Ob(key, "ok", where(m), "%d remembered values" % len(req(s)), s.inlined))
            return
        # an unknown effect could do it
        st = "undecided" if suspects(s.inval) or suspects(s.events) or s.qwrites is not t.EMPTY or any(
            x.h in ("opaque",) for x in t.subterms(s.events)) else "violated"
        out.append(Ob(key, st, where(m), "keeps the remembered " + "; ".join(describe(r) for r, _ in bad[:3]), s.inlined))

    direct(pt_c, "flush", lambda s: [("one", s.self_, k) for k in cands["PlannedTrip"]])
    direct(stop_c, "flush", lambda s: stop_needs(cands, s.self_))
    direct(stop_c, "starting_time", lambda s: stop_needs(cands, s.self_), setter=True)

    def added(f, g):
        def req(s):
            r = [("one", s.self_, k) for k in cands["Stop"]]
            r += [("all", t.mk("field", s.self_, g), k) for k in cands["PlannedTrip"]]
            return r
        return req

    direct(stop_c, "append_pickup", added("pickup_planned_trips", "delivery_planned_trips"), nparams=1)
    direct(stop_c, "append_delivery", added("delivery_planned_trips", "pickup_planned_trips"), nparams=1)

    def scenario(key, sizes, build, m):
        """The change on routes of several lengths, at every position; contents symbolic."""
        st, why, n, inl = "ok", "", 0, set()
        for size in sizes:
            for label, text, first in build(size):
                try:
                    s = snippet(ev, text)
                except FAIL as x:
                    st, why = ("undecided", "%s" % x) if st == "ok" else (st, why)
                    continue
                inl |= set(s.inlined)
                route = s.ret
                if route is None or route.h != "obj":
                    st, why = ("undecided", "route not tracked") if st == "ok" else (st, why)
                    continue
                stops = dict(route.a[1]).get("stops")
                if stops is None or stops.h != "tup":
                    st, why = ("undecided", "stops not tracked") if st == "ok" else (st, why)
                    continue
                req = [("one", route, k) for k in cands["Route"]]
                for o in stops.a[0][first:]:
                    req += stop_needs(cands, o)
                req = [r for r in req if not (r[1].h == "set" or r[1] is t.EMPTY)]
                bad = covered(s.inval, req)
                n += len(req)
                if bad and (suspects(s.inval) or s.qwrites is not t.EMPTY):
                    st, why = ("undecided", "effects not tracked") if st == "ok" else (st, why)
                elif bad:
                    st, why = "violated", "%s keeps the remembered %s" % (label, "; ".join(
                        "%s of the %s" % (r[2], _role(r, route, stops)) for r, _ in bad[:3]))
                    break
            if st == "violated":
                break
        out.append(Ob(key, st, where(m), why or "%d remembered values" % n, inl))

    names = "abcde"

    def route_text(size):
        ps = names[:size]
        return HEAD + "def probe(vehicle: Vehicle, position: Position, x: Stop, %s):\n    route = Route(vehicle, [%s])\n" % (
            ", ".join("%s: Stop" % p for p in ps), ", ".join(ps))

    def ins_at(size):
        for i in range(1, size):
            yield ("inserting at %d of %d" % (i, size),
                   route_text(size) + "    route.insert_stop_at(%d, x)\n    return route\n" % i, i)

    def rem_at(size):
        for i in range(1, size - 1):
            yield ("removing %d of %d" % (i, size),
                   route_text(size) + "    route.remove_stop_at(%d)\n    return route\n" % i, i)

    def flush(size):
        yield ("flushing", route_text(size) + "    route.flush()\n    return route\n", 0)

    for name, b in (("insert_stop_at", ins_at), ("remove_stop_at", rem_at), ("flush", flush)):
        m = need(ix, "Route", name)[1]
        scenario("Route.%s forgets" % name, (3, 4, 5), b, m)
    # insertion behind a predecessor, and planning and removing trips, go through the two primitives or are checked alike
    for name, n in (("insert_stop", 1), ("append_planned_trip", 1), ("remove_trip", 1)):
        m = need(ix, "Route", name)[1]
        key = "Route.%s forgets" % name
        try:
            s = traced(ev, route_c, m, extra=[("Route", x) for x in ("insert_stop", "insert_stop_at", "remove_stop_at")
                                              if x != name], nparams=n)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m), "%s" % x))
            continue
        raw = [o for o in s.conts if o.h == "field" and o.a[1] == "stops"] + [o for o, f in s.writes if f in MUTABLE]
        if not raw and s.qwrites is t.EMPTY:
            out.append(Ob(key, "ok", where(m), "only through the primitives", s.inlined))
            continue
        keys = {p.elem.a[1] for p in t.parts_of(s.inval) if p.elem.h == "inval"}
        keys = {k.a[0] if isinstance(k, T) else k for k in keys}
        missing = [k for k in cands["Stop"] + cands["Route"] if k not in keys]
        if missing and not suspects(s.inval) and s.qwrites is t.EMPTY:
            out.append(Ob(key, "violated", where(m), "changes the stops itself and keeps the remembered %s" % missing[0]))
        else:
            out.append(Ob(key, "undecided", where(m), "changes the stops itself"))
    return out


def _role(r, route, stops):
    kind, o, k = r
    if o is route:
        return "route"
    if kind == "all":
        return "planned trips of stop %s" % short(o, 40)
    for i, s in enumerate(stops.a[0]):
        if s is o:
            return "stop at %d" % i
    return short(o, 40)


def raw_changes(ix, ev):
    """Code outside the models that rewires stops by hand forgets the remembered values itself."""
    out = []
    cands = stale_candidates(ix, ev)
    fields = {"previous", "stops", "pickup_planned_trips", "delivery_planned_trips", "_starting_time"}
    n = 0
    for c in ix.classes:
        if c.module.name.startswith("jvspec.") or ".models." in "." + c.module.name + "." and ".algorithms." not in c.module.name:
            continue
        for mn, m in c.members.items():
            if m.owner is not c:
                continue
            stores = []
            me = {"self"} | {x.targets[0].id for x in ast.walk(m.node) if isinstance(x, ast.Assign) and len(
                x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Name)
                and x.value.id == "self"}
            for x in ast.walk(m.node):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    y = x.value if isinstance(x, ast.Subscript) else x
                    if isinstance(y, ast.Attribute) and y.attr in fields and not (
                            isinstance(y.value, ast.Name) and y.value.id in me):
                        stores.append(y)
            n += 1
            if not stores:
                continue
            key = "%s.%s" % (c.name, mn)
            try:
                s = summary(ev, c, m)
            except FAIL as x:
                out.append(Ob(key, "undecided", where(m), "%s" % x))
                continue
            keys = set()
            for y in t.subterms(s.inval):
                if y.h == "inval":
                    k = y.a[1]
                    keys.add(k.a[0] if isinstance(k, T) else k)
            need_keys = set(cands["Stop"])
            if any(f in ("stops",) for f in {y.attr for y in stores}) or True:
                need_keys |= set(cands["Route"])
            missing = sorted(need_keys - keys)
            # the route itself, not only its stops
            route_flushed = any(y.h == "inval" and _is_route(s, y.a[0]) for y in t.subterms(s.inval)) or not cands["Route"]
            if not route_flushed and "feasible" in cands["Route"] and not missing:
                missing = ["feasible of the route"]
            if not missing:
                out.append(Ob(key, "ok", where(m), "forgets %s" % ", ".join(sorted(keys)), s.inlined))
            elif suspects(s.inval) or suspects(s.events):
                out.append(Ob(key, "undecided", where(m), "effects not tracked"))
            else:
                out.append(Ob(key, "violated", where(m), "rewires stops and keeps the remembered %s" % ", ".join(missing), s.inlined))
    out.append(Ob("functions outside the models", "ok", "", "%d looked at" % n))
    return out


def _is_route(s, o):
    if o.h == "obj":
        return o.a[0].endswith(".Route")
    try:
        ty = s.engine.type_of(o)
    except Exception:
        return True
    if isinstance(ty, tuple) and ty[0] == "cls":
        return any(k.name == "Route" for k in ty[1].mro())
    return ty is None

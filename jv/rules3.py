"""Rules about the search: best-so-far, adoption, isolation, candidates."""
from __future__ import annotations

import ast

from . import terms as t
from .rules import FAIL, dotted, need, snippet, summary, where
from .rules2 import call_arg, traced
from .spec import Ob, Broken, judge, short, suspects
from .terms import FALSE, T, TRUE, UNDEF

BEST = [("Objective", "best"), ("Job", "objective")]


def field_of(x, name):
    """x.name, looking into freshly built objects."""
    if x.h == "obj":
        return dict(x.a[1]).get(name)
    return t.mk("field", x, name)


def open_loop(lp):
    """(initial values, updates over fresh variables, those variables) of a loop term."""
    spaces, inits, ups, guard = lp.a
    n = len(spaces)
    vs = [t.fresh("it") for _ in range(n)]
    ps = [t.fresh("phi") for _ in ups]
    return list(inits), [t.open_(u, vs + ps) if u is not UNDEF else u for u in ups], ps, vs


def paths(x, path=()):
    """Leaves of a tree with the decisions that lead there."""
    if x.h == "ite":
        a = t.bool_atom(x.a[0]) if not isinstance(x.a[0], T) else x.a[0]
        yield from paths(x.a[1], path + ((a, True),))
        yield from paths(x.a[2], path + ((a, False),))
    else:
        yield path, x


def best_call(x):
    return x.h == "mcall" and x.a[1] == "best"


def best_so_far(x, allowed, seen=None):
    """Is x one of the allowed values or the best of collections that include the best so far?

    ('ok' | 'violated' | 'undecided', text)"""
    seen = seen or {}
    worst = ("ok", "")
    for path, l in paths(x):
        r = _bsf_leaf(l, path, allowed, seen)
        if r[0] == "violated":
            return r
        if r[0] == "undecided":
            worst = r
    return worst


def _bsf_leaf(l, path, allowed, seen):
    if l in allowed or l in seen:
        return "ok", ""
    if best_call(l):
        args = list(l.a[2]) + [v for _, v in l.a[3]]
        return _among(args, allowed, seen, l)
    if l.h == "loopval":
        lp, k = l.a
        inits, ups, ps, vs = open_loop(lp)
        if ups[k] is UNDEF or inits[k] is UNDEF:
            return "undecided", "loop variable not tracked"
        r = best_so_far(inits[k], allowed, seen)
        if r[0] != "ok":
            return r
        inner = dict(seen)
        inner[ps[k]] = True
        worst = ("ok", "")
        for path2, u in paths(ups[k]):
            if u is ps[k]:
                continue
            r = _bsf_leaf(u, path2, {ps[k]}, {})
            if r[0] == "ok":
                continue
            # adopted only under a comparison with what it replaces
            atoms = [a for a, _ in path2 if ps[k] in t.free_vars(a)]
            if any(a.h == "isnone" and a.a[0] is ps[k] and v for a, v in path2):
                continue  # nothing to lose
            if any(not _orderless(a) for a in atoms):
                r = ("undecided", "adopts %s under %s" % (short(u, 80), " and ".join(short(a, 60) for a, _ in path2)))
            if r[0] == "violated":
                return r
            worst = r
        return worst
    if suspects(l) - {"loop:"}:
        return "undecided", short(l, 120)
    return "violated", "yields %s, which need not be as good as the best found so far" % short(l, 160)


def _orderless(a):
    """An atom that can tell two values apart but not which one is better."""
    if a.h == "isnone":
        return True
    return a.h in ("eq", "eq0") and not any(y.h in ("call", "ext", "opaque") or y.h == "mcall" and y.a[1] not in (
        "optimization_function", "improve", "optimize") for y in t.subterms(a) if not _candidate(y))


def _candidate(y):
    return y.h == "call" and y.a[0].h == "field" and y.a[0].a[1] in ("strategy_cls", "algorithm_cls")


def _among(args, allowed, seen, l):
    last = ("violated", "the choice %s leaves out the best found so far" % short(l, 160))
    for a in args:
        xs = a.a[0] if a.h in ("tup",) else (a,)
        for x in xs:
            r = best_so_far(x, allowed, seen)
            if r[0] == "ok":
                return r
            if r[0] == "undecided":
                last = r
    return last


def never_worse(ix, ev):
    """What iterating and local search return is never worse than anything they had before."""
    out = []
    for name, start in (("IterativeAlgorithm", None), ("LocalSearchAlgorithm", "initial")):
        c, m = need(ix, name, "optimize")
        key = "%s keeps the best" % name
        try:
            s = traced(ev, c, m, extra=BEST, exact=True)
        except FAIL as x:
            out.append(Ob(key, "undecided", where(m, c), "%s" % x))
            continue
        w = c.find("_optimize")
        wh = where(w, c) if w is not None else where(m, c)
        p = field_of(s.ret, "planning") if s.ret is not None else None
        if p is None:
            out.append(Ob(key, "undecided", wh, "result not tracked", s.inlined))
            continue
        st, why = "ok", "inductive: every round keeps the best so far or a better one"
        allowed = {t.mk("field", s.self_, start)} if start else {t.NONE}
        loops = {y for y in t.subterms(p) if y.h == "loop"}
        for path, l in paths(p):
            if not (l.h == "field" and l.a[1] == "planning"):
                st, why = "undecided", short(l, 160)
                continue
            r = best_so_far(l.a[0], allowed)
            if r[0] == "violated" or st == "ok" and r[0] != "ok":
                st, why = r
            if st == "violated":
                break
        if start and st == "ok":
            for lp in loops:
                inits, ups, ps, vs = open_loop(lp)
                for u in ups:
                    for y in t.subterms(u) if u is not UNDEF else ():
                        if _candidate(y) and y.a[1] and not (t.free_vars(y.a[1][0]) & set(ps)) and not suspects(y.a[1][0]):
                            st, why = "violated", "every round starts from %s, not from the best so far" % short(y.a[1][0], 80)
        if st == "ok" and not loops:
            st, why = "undecided", "no iteration found"
        out.append(Ob(key, st, wh, why, s.inlined))
    return out

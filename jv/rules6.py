"""Errors belong to one family and name their cause."""
from __future__ import annotations

import ast

from . import terms as t
from .index import Class, dotted
from .rules import FAIL, snippet
from .spec import Ob

BUILTIN = {"StopIteration", "NotImplementedError", "StopAsyncIteration", "KeyboardInterrupt", "GeneratorExit", "SystemExit",
           "AssertionError"}
BROAD = {"Exception", "BaseException"}


def functions(ix):
    for m in ix.modules.values():
        if m.name.startswith("jvspec."):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield m, n


def is_error(c, ix):
    return any(b.rpartition(".")[2] in BROAD or b.rpartition(".")[2].endswith("Error") for x in c.mro() for b in x.ext_bases)


def own_errors(ix, ev):
    """Own errors descend from JineteException, nothing is raised as a bare Exception, and the cause is handed on."""
    out = []
    base = ev.need_class("JineteException")
    for c in ix.classes:
        if c.module.name.startswith("jvspec.") or not is_error(c, ix):
            continue
        where = "%s:%d %s" % (c.module.rel, c.node.lineno, c.name)
        ok = c is base or base in c.mro()
        out.append(Ob("family of %s" % c.name, "ok" if ok else "violated", where,
                      "descends from JineteException" if ok else "is an error of the package but no JineteException"))
    seen = {}
    for m, f in functions(ix):
        for n in ast.walk(f):
            if not isinstance(n, ast.Raise) or n.exc is None:
                continue
            x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            d = dotted(x)
            if d is None or d in BUILTIN:
                continue
            r = ix.resolve(m, d) if "." not in d else None
            where = "%s:%d %s" % (m.rel, n.lineno, f.name)
            k = "raise in %s %s" % (m.rel, f.name)
            seen[k] = seen.get(k, 0) + 1
            k += " #%d" % seen[k] if seen[k] > 1 else ""
            if isinstance(r, Class):
                ok = not is_error(r, ix) or base in r.mro()
            elif d in BROAD:
                ok = False
            else:
                continue
            out.append(Ob(k, "ok" if ok else "violated", where,
                          "raises %s" % d if ok else "raises %s, which is no JineteException" % d))
    out.append(cause(ev))
    return out


def cause(ev):
    """A stop behind a stranger is refused with the route and the stop as the cause."""
    key, where = "cause of a refused stop", "jinete/models/routes.py Route.insert_stop"
    try:
        s = snippet(ev, "from jinete.models import Route, Stop\n\n"
                        "def probe(route: Route, stop: Stop):\n    return route.insert_stop(stop)\n")
    except FAIL as x:
        return Ob(key, "undecided", where, repr(x)[:100])
    if not s.raises:
        return Ob(key, "violated", where, "nothing is raised for a stop whose predecessor is not on the route")
    for _, v in s.raises:
        if not isinstance(v, t.T) or v.h != "obj":
            return Ob(key, "undecided", where, "an untracked error")
        if not v.a[0].endswith("PreviousStopNotInRouteException"):
            return Ob(key, "violated", where, "raises %s" % v.a[0])
        f = dict(v.a[1])
        if f.get("route") is not t.mk("var", "$1") or f.get("stop") is not t.mk("var", "$2"):
            return Ob(key, "violated", where, "the error names route %s and stop %s" % tuple(
                t.show(f[x])[:80] if x in f else "nothing" for x in ("route", "stop")))
    return Ob(key, "ok", where, "names the route and the stop")

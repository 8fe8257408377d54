"""Where randomness comes from: every draw belongs to a generator that somebody seeded."""
from __future__ import annotations

import ast

from .index import Class, Func, dotted
from . import terms as t
from .interp import Undecided
from .rules import snippet
from .spec import Ob

CLOCKS = ("time.", "uuid.", "os.", "datetime.", "secrets.", "threading.", "socket.")
FREE = ("random.", "secrets.", "numpy.random.")


class Scope:
    """A function (or method, or module body) with its parents and what its names stand for."""

    def __init__(self, ix, module, node, cls=None, outer=None):
        self.ix, self.module, self.node, self.cls, self.outer = ix, module, node, cls, outer
        self.local = {}
        self.params, self.defaults = [], {}
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            ps = a.posonlyargs + a.args
            self.params = [p.arg for p in ps + a.kwonlyargs]
            for p, d in zip(reversed(ps), reversed(a.defaults)):
                self.defaults[p.arg] = d
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    self.defaults[p.arg] = d
            self.names = set(self.params) | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        else:
            self.names = set()

    @property
    def key(self):
        n = getattr(self.node, "name", "lambda")
        return "%s.%s" % (self.cls.name, n) if self.cls is not None else n

    def resolve(self, d):
        """A dotted name: ('ext', name), Class, Func, None for a local value."""
        first, _, rest = d.partition(".")
        s = self
        while s is not None:
            if first in s.local:
                r = s.local[first]
                return self._rest(r, rest)
            if first in s.names:
                return None
            s = s.outer
        return self.ix.resolve_dotted(self.module, d)

    def _rest(self, r, rest):
        for p in rest.split(".") if rest else ():
            if isinstance(r, tuple) and r[0] == "ext":
                r = ("ext", "%s.%s" % (r[1], p))
            elif isinstance(r, tuple) and r[0] == "mod":
                r = self.ix.resolve(self.ix.modules[r[1]], p)
            else:
                return None
        return r


def scopes(ix):
    """Every function of the package with its scope; nested functions too."""
    out = []

    def enter(module, node, cls, outer):
        s = Scope(ix, module, node, cls, outer)
        body = node.body if isinstance(node.body, list) else [node.body]
        inner = []

        def walk(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                s.names.add(n.name)
                inner.append(n)
                for d in n.decorator_list:
                    walk(d)
                return
            if isinstance(n, ast.ClassDef):
                for x in n.body:
                    walk(x)
                return
            if isinstance(n, ast.ImportFrom):
                base = ix.import_base(module, n)
                for a in n.names:
                    s.local[a.asname or a.name] = ix.resolve_import(base, a.name)
                return
            if isinstance(n, ast.Import):
                for a in n.names:
                    top = a.name if a.asname else a.name.split(".")[0]
                    s.local[a.asname or top] = ix.resolve_import(top, None)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.names.add(n.id)
            for c in ast.iter_child_nodes(n):
                walk(c)

        for x in body:
            walk(x)
        out.append(s)
        for x in inner:
            enter(module, x, cls, s)

    for m in ix.modules.values():
        if m.name.split(".")[0] != ix.package:
            continue
        for b in m.tree.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                enter(m, b, None, None)
            elif isinstance(b, ast.ClassDef):
                bound = m.bind.get(b.name)
                c = bound[1] if bound and bound[0] == "class" and bound[1].node is b else None
                for x in b.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        enter(m, x, c, None)
    return out


def parents(node):
    p = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            p[c] = n
    return p


def own_nodes(scope):
    """The nodes of a function without those of the functions nested in it."""
    stack = list(ast.iter_child_nodes(scope.node))
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(ast.iter_child_nodes(n))


def is_none(n):
    return isinstance(n, ast.Constant) and n.value is None


def means_none(test, name):
    """What a condition says about ``name`` being None: True (it is), False (it is not), None (nothing)."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        if isinstance(test.operand, ast.Name) and test.operand.id == name:
            return True
        r = means_none(test.operand, name)
        return None if r is None else not r
    if isinstance(test, ast.Name) and test.id == name:
        return False
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, b = test.left, test.comparators[0]
        if is_none(a):
            a, b = b, a
        if isinstance(a, ast.Name) and a.id == name and is_none(b):
            if isinstance(test.ops[0], (ast.Is, ast.Eq)):
                return True
            if isinstance(test.ops[0], (ast.IsNot, ast.NotEq)):
                return False
    return None


def fallback_of(scope, node, up):
    """The parameter whose absence is the only reason to get to this node."""
    optional = [p for p, d in scope.defaults.items() if is_none(d)]
    # flags set once, from a test of the parameter
    flags = {}
    for a in own_nodes(scope):
        if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
            flags.setdefault(a.targets[0].id, []).append(a.value)

    def absent(test, p):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            m = absent(test.operand, p)
            return None if m is None else not m
        if isinstance(test, ast.Name) and len(flags.get(test.id, ())) == 1 and not rebound(scope, p):
            return means_none(flags[test.id][0], p)
        return means_none(test, p)

    child, n = node, up.get(node)
    while n is not None:
        for p in optional:
            if isinstance(n, ast.If):
                m = absent(n.test, p)
                if m is True and child in n.body or m is False and child in n.orelse:
                    return p
            if isinstance(n, ast.IfExp):
                m = absent(n.test, p)
                if m is True and child is n.body or m is False and child is n.orelse:
                    return p
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and child is not n.values[0]:
                first = n.values[0]
                if isinstance(first, ast.Name) and first.id == p:
                    return p
            for body in (getattr(n, "body", None), getattr(n, "orelse", None)):
                # behind `if p is not None: return ...`
                if isinstance(body, list) and child in body:
                    for s in body[:body.index(child)]:
                        if isinstance(s, ast.If) and absent(s.test, p) is False and s.body and isinstance(
                                s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                            return p
        child, n = n, up.get(n)
    return None


def draws_freely(r):
    """A name outside every generator object: the module's shared one, or the system's."""
    if not (isinstance(r, tuple) and r[0] == "ext"):
        return False
    n = r[1]
    if n in ("random", "random.Random", "numpy.random.RandomState", "numpy.random.default_rng", "numpy.random"):
        return False
    return n.startswith(FREE) or n == "os.urandom"


def own_random(ix, ev):
    """Every draw comes from a generator object that was given a seed, never from the process-wide state."""
    out, needs, where = [], {}, {}
    all_scopes = scopes(ix)
    ups = {}

    def at(s, n):
        return "%s:%d" % (s.module.rel, n.lineno)

    for s in all_scopes:
        up = ups[s] = parents(s.node)
        for n in own_nodes(s):
            if isinstance(n, ast.ImportFrom):
                base = ix.import_base(s.module, n)
                used = [("ext", "%s.%s" % (base, a.name)) for a in n.names if base not in ix.modules]
                if not any(draws_freely(r) for r in used):
                    continue
                what = ", ".join(r[1] for r in used if draws_freely(r))
            elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                if isinstance(up.get(n), ast.Attribute):
                    continue
                d = dotted(n)
                if d is None:
                    continue
                first = d.partition(".")[0]
                if any(first in x.local and draws_freely(x.local[first]) for x in [s] + ([s.outer] if s.outer else [])):
                    continue  # judged where it is imported
                r = s.resolve(d)
                if isinstance(r, tuple) and r == ("ext", "random"):
                    what = "the module random itself"
                elif draws_freely(r):
                    what = r[1]
                elif r == ("ext", "random.Random"):
                    c = up.get(n)
                    if not (isinstance(c, ast.Call) and c.func is n):
                        continue
                    seed = c.args[0] if c.args else c.keywords[0].value if c.keywords else None
                    key = "%s seeds its generator" % s.key
                    if seed is None or is_none(seed):
                        what = "a generator without a seed"
                    elif isinstance(seed, ast.Name) and is_none(s.defaults.get(seed.id)) and not rebound(s, seed.id):
                        out.append(Ob(key, "violated", at(s, n), "without the option %s the generator seeds itself" % seed.id))
                        continue
                    else:
                        bad = [x for x in ast.walk(seed) if isinstance(x, ast.Call) and clocked(s, x)]
                        if bad:
                            out.append(Ob(key, "violated", at(s, n), "the seed differs from run to run"))
                        else:
                            out.append(Ob(key, "ok", at(s, n), "seeded"))
                        continue
                else:
                    continue
            else:
                continue
            p = fallback_of(s, n, up)
            if p is None:
                out.append(Ob("%s draws from %s" % (s.key, what), "violated", at(s, n),
                              "draws from %s instead of a seeded generator of its own" % what))
            else:
                needs.setdefault((s.module.name, s.key), (s, set()))[1].add(p)

    # whoever leaves out the generator of such a function falls back to the shared state
    work, done = list(needs.values()), set()
    while work:
        f, ps = work.pop()
        for p in sorted(ps):
            if (f, p) in done:
                continue
            done.add((f, p))
            out.append(Ob("%s with %s" % (f.key, p), "ok", at(f, f.node), "draws from %s when it is given" % p))
            for s in all_scopes:
                for c in own_nodes(s):
                    if not isinstance(c, ast.Call) or not calls(ix, s, c, f):
                        continue
                    key = "%s calls %s" % (s.key, f.key)
                    arg = argument(c, f, p)
                    if arg is Ellipsis:
                        out.append(Ob(key, "undecided", at(s, c), "cannot see whether %s is given" % p))
                    elif arg is None or is_none(arg):
                        out.append(Ob(key, "violated", at(s, c), "%s is left out: the draw comes from the process-wide "
                                                                 "random state" % p))
                    else:
                        st, why, more = given(ix, all_scopes, s, arg, ups[s])
                        out.append(Ob(key, st, at(s, c), why))
                        if more is not None:
                            work.append((s, {more}))
    return out


def rebound(s, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in own_nodes(s))


def clocked(s, call):
    d = dotted(call.func)
    if d is None:
        return False
    r = s.resolve(d)
    if r is None and d in ("id", "hash", "object") and d not in s.names:
        return True
    return isinstance(r, tuple) and r[0] == "ext" and (r[1].startswith(CLOCKS) or draws_freely(r))


def calls(ix, s, call, f):
    d = dotted(call.func)
    if d is not None:
        r = s.resolve(d)
        if isinstance(r, Func):
            return r.node is f.node
        if isinstance(r, Class):
            m = r.find("__init__")
            return m is not None and m.node is f.node
    if f.cls is not None and isinstance(call.func, ast.Attribute):
        return call.func.attr == f.node.name and f.node.name != "__init__"
    return False


def argument(call, f, p):
    """The argument given for p, None when left out, Ellipsis when it cannot be told."""
    for k in call.keywords:
        if k.arg == p:
            return k.value
    names = list(f.params)
    if f.cls is not None and names and names[0] in ("self", "cls"):
        names = names[1:]
    i = names.index(p)
    for j, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            return Ellipsis
        if j == i:
            return a
    if any(k.arg is None for k in call.keywords):
        return Ellipsis
    return None


def given(ix, all_scopes, s, e, up, depth=0):
    """Whether an expression is certainly a generator object: (status, why, parameter it depends on)."""
    if depth > 6:
        return "undecided", "too deep", None
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        r = s.resolve(d) if d else None
        if r == ("ext", "random.Random"):
            return "ok", "a generator", None
        return "undecided", "result of a call", None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and s.cls is not None and s.params[:1] == [e.value.id]:
        found = []
        classes = set(s.cls.mro()) | set(s.cls.all_subclasses())
        for z in all_scopes:
            if z.cls not in classes or not z.params:
                continue
            for n in own_nodes(z):
                tgts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) and n.value else []
                for t in tgts:
                    if isinstance(t, ast.Attribute) and t.attr == e.attr and isinstance(t.value, ast.Name) and t.value.id == z.params[0]:
                        found.append((z, n.value))
        m = s.cls.find(e.attr)
        if m is not None:
            rets = [n.value for n in ast.walk(m.node) if isinstance(n, ast.Return)]
            found += [(z, r) for z in all_scopes if z.node is m.node for r in rets]
        if not found:
            return "undecided", "nothing sets %s" % e.attr, None
        worst = ("ok", "the object's own generator", None)
        for z, v in found:
            if v is None or is_none(v):
                return "violated", "%s may be None: the draw comes from the process-wide random state" % e.attr, None
            st, why, more = given(ix, all_scopes, z, v, None, depth + 1)
            if st == "violated":
                return st, why, more
            if st != "ok" or more is not None and worst[0] == "ok":
                worst = (st, why, more)
        return worst
    if isinstance(e, ast.Name):
        if e.id in s.params and not rebound(s, e.id):
            d = s.defaults.get(e.id)
            if d is not None and is_none(d):
                return "ok", "handed on", e.id
            return "ok", "handed in", None
        vals = [n.value for n in own_nodes(s) if isinstance(n, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if vals and e.id not in s.params:
            worst = ("ok", "a generator", None)
            for v in vals:
                if is_none(v):
                    return "violated", "%s may be None" % e.id, None
                r = given(ix, all_scopes, s, v, up, depth + 1)
                if r[0] != "ok" or r[2] is not None:
                    worst = r
                if worst[0] == "violated":
                    return worst
            return worst
        return "undecided", "cannot follow %s" % e.id, None
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
        return given(ix, all_scopes, s, e.values[-1], up, depth + 1)
    return "undecided", "cannot follow the argument", None


# -- pairs of positions drawn at random --------------------------------------------------------------------


class Unclear(Exception):
    pass


def drawable(name, args):
    """The values a draw can give."""
    xs = []
    for a in args:
        if not t.is_num_const(a):
            raise Unclear()
        xs.append(int(a.a[0]))
    if name == "randint" and len(xs) == 2:
        return range(xs[0], xs[1] + 1)
    if name == "randrange" and 1 <= len(xs) <= 2:
        return range(*xs)
    raise Unclear()


def outcomes(x, budget):
    """A term with draws in it, once for each way the draws can go."""
    ds = [y for y in t.subterms(x) if y.h == "draw"]
    if not ds:
        budget[0] -= 1
        if budget[0] < 0:
            raise Unclear()
        yield x
        return
    for d in ds:
        if not any(z.h == "draw" for a in d.a[2] for z in t.subterms(a)):
            break
    vs = drawable(d.a[0], d.a[2])
    if not vs:
        raise Empty(t.show(d))
    for v in vs:
        yield from outcomes(t.substitute(x, {d: t.const(v)}), budget)


class Empty(Exception):
    pass


def pair_of(x):
    if x.h in ("tup",) and len(x.a[0]) == 2 and all(t.is_num_const(y) for y in x.a[0]):
        return tuple(int(y.a[0]) for y in x.a[0])
    return None


def added(update, past):
    """What one round adds to the pairs gathered so far: (pair or None, guarded against repetition)."""
    for was in (past, t.set_of(past)):
        if update is was:
            return None, True
    if update.h == "ite" and update.a[0].h == "in":
        p = update.a[0].a[0]
        if update.a[1] in (past, t.set_of(past)):
            got, _ = added(update.a[2], past)
            if got is not None and got == pair_of(p):
                return got, True
        raise Unclear()
    p = None
    if update.h == "union":
        rest = [y for y in update.a[0] if y not in (past, t.set_of(past))]
        if len(rest) == len(update.a[0]) - 1 and len(rest) == 1 and rest[0].h == "set":
            p, once = rest[0].a[0], True
    elif update.h == "concat":
        rest = [y for y in update.a[0] if y is not past]
        if len(rest) == 1 and update.a[0][0] is past:
            p, once = rest[0], False
    if p is None:
        raise Unclear()
    if p.h == "tup" and len(p.a[0]) == 1:
        got = pair_of(p.a[0][0])
        if got is not None:
            return got, once
    raise Unclear()


def judge_pairs(x, n, count):
    """None when right, a message when wrong; Unclear otherwise."""
    every = {(i, j) for i in range(n) for j in range(i + 1, n)}
    asked = min(count, len(every))
    x = t.truth(x) if t.is_bool(x) else x
    if x.h == "set":
        x = x.a[0]
    if x.h in ("tup",):
        ps = [pair_of(y) for y in x.a[0]]
        if any(p is None for p in ps):
            raise Unclear()
        if not set(ps) <= every:
            return "gives %s of %d positions" % (sorted(set(ps) - every)[0], n)
        if len(set(ps)) < len(ps):
            return "gives %s twice" % ([p for p in ps if ps.count(p) > 1][0],)
        if len(ps) != asked and ps:
            return "asked for %d of the %d pairs gives %d" % (count, len(every), len(ps))
        if len(ps) != asked:
            raise Unclear()
        return None
    if x.h == "comp":
        spaces, cond, body = x.a
        if len(spaces) != 1 or cond is not t.TRUE or t.bv_max(body):
            raise Unclear()
        k = t.length(spaces[0])
        if not t.is_num_const(k):
            raise Unclear()
        try:
            pairs = {pair_of(y) for y in outcomes(body, [4000])}
        except Empty as e:
            return "draws from nothing: %s" % e
        if None in pairs:
            raise Unclear()
        if pairs - every:
            return "can give %s of %d positions" % (sorted(pairs - every)[0], n)
        if k.a[0] > 1:
            return "%d draws can give fewer than %d different pairs" % (k.a[0], k.a[0])
        raise Unclear()
    if x.h == "draw" and x.a[0] == "sample" and len(x.a[2]) == 2:
        xs, k = x.a[2]
        if t.is_num_const(k) and k.a[0] == asked and judge_pairs(xs, n, len(every)) is None:
            return None
        raise Unclear()
    if x.h != "loopval":
        raise Unclear()
    spaces, inits, updates, how = x.a[0].a
    if len(inits) != 1 or x.a[1] != 0 or spaces:
        raise Unclear()
    if inits[0] not in (t.set_of(t.tup([])), t.tup([])):
        raise Unclear()
    guard, past = how.a[0][2] if how.h == "tup" else how, t.mk("bv", 0)
    sizes = []
    for k in range(len(every) + 2):
        g = t.substitute(guard, {past: t.tup([t.tup([t.const(0), t.const(-1 - i)]) for i in range(k)])})
        g = {t.TRUE: True, t.FALSE: False}.get(g)
        if g is None:
            raise Unclear()
        if not g:
            break
    else:
        return "never has enough: asked for %d of %d pairs" % (count, len(every))
    if k > len(every):
        return "asked for %d of the %d pairs it goes on for ever" % (count, len(every))
    if k == 0:
        if asked:
            return "asked for %d of the %d pairs gives none" % (count, len(every))
        return None
    pairs = set()
    try:
        for u in outcomes(t.constrain(updates[0], guard), [4000]):
            got, once = added(u, past)
            if got is not None:
                if not once and k > 1:
                    return "the same pair can be given more than once"
                pairs.add(got)
    except Empty as e:
        return "draws from nothing: %s" % e
    if pairs - every:
        return "can give %s of %d positions" % (sorted(pairs - every)[0], n)
    if every - pairs:
        return "never gives %s of %d positions" % (sorted(every - pairs)[0], n)
    if k != asked:
        return "asked for %d of the %d pairs gives %d" % (count, len(every), k)
    return None


def sampled_pairs(ix, ev):
    """As many different pairs i < j as were asked for (or all there are), any of which can be drawn."""
    out = []
    plain = ev.engine

    def engine(*a):
        e = plain(*a)
        e.draw_sites = []
        return e

    for given, name in ((", Random(seed)", "a generator"), ("", "none")):
        for n in range(2, 8):
            text = ("from random import Random\nfrom jinete.utils import sample_index_pairs\n\n"
                    "def probe(count: int, seed: int):\n    return list(sample_index_pairs(%d, count%s))\n" % (n, given))
            key = "pairs of %d positions, given %s" % (n, name)
            f = ix.find_function("sample_index_pairs") if hasattr(ix, "find_function") else None
            where = "jinete/utils/random.py"
            try:
                ev.engine = engine
                r = snippet(ev, text).ret
            except Undecided as e:
                out.append(Ob(key, "undecided", where, str(e)))
                continue
            finally:
                ev.engine = plain
            bad, open_ = None, None
            for count in range(0, n * (n - 1) // 2 + 3):
                try:
                    bad = judge_pairs(t.substitute(r, {t.mk("var", "$1"): t.const(count)}), n, count)
                except (Unclear, Undecided) as e:
                    open_ = "%d pairs" % count
                if bad:
                    break
            if bad:
                out.append(Ob(key, "violated", where, bad))
            elif open_:
                out.append(Ob(key, "undecided", where, "cannot tell what %s are" % open_))
            else:
                out.append(Ob(key, "ok", where, "every number of pairs asked for"))
    return out

"""Normal forms.

Values computed by the dataflow engine are *terms*: immutable, interned trees.  The smart
constructors below put every term into a canonical form, so that two pieces of source that compute
the same thing by different spellings end up as the same object:

* numbers are linear combinations of monomials, ``max``/``min`` are flattened sets,
* booleans are reduced ordered decision trees over normalised atoms (so any propositional
  rearrangement of a condition is the same tree),
* a conditional value is a decision tree with values at the leaves; every operator is lifted
  through it,
* an iteration is a set of bound variables ranging over spaces, a filter and a body, with bound
  variables in de Bruijn form, so a loop, a comprehension and a generator coincide.

No path condition is handed to a solver and nothing is executed: equality of terms is identity.
"""
from __future__ import annotations

import hashlib
import itertools
import math
import time


class TooBig(Exception):
    """A decision tree outgrew the budget; the caller degrades to an opaque term."""


class OutOfBudget(Exception):
    """One evaluation used up its allowance of terms or time: the obligation is undecided."""


class T:
    __slots__ = ("h", "a", "_key", "_free", "_size", "_bvmax", "__weakref__")

    def __init__(self, h, a):
        self.h = h
        self.a = a
        self._key = None
        self._free = None
        self._size = None
        self._bvmax = None

    @property
    def key(self):
        if self._key is None:
            k = "%s(%s)" % (self.h, ",".join(_key(x) for x in self.a))
            if len(k) > 240:
                # terms share subterms heavily: long keys are abbreviated by their digest
                k = "%s#%s" % (self.h, hashlib.sha1(k.encode()).hexdigest())
            self._key = k
        return self._key

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_rebuild, (self.h, self.a))


def _rebuild(h, a):
    return mk(h, *a)


def _key(x):
    if isinstance(x, T):
        return x.key
    if isinstance(x, tuple):
        return "<%s>" % ",".join(_key(y) for y in x)
    return "%s:%r" % (type(x).__name__, x)


_table = {}
# remaining new terms, deadline: bounds one evaluation; running out degrades to "undecided"
BUDGET = [1 << 60, float("inf")]


def budget(n=None, seconds=None):
    BUDGET[0] = n if n is not None else 1 << 60
    BUDGET[1] = time.monotonic() + seconds if seconds is not None else float("inf")


def mk(h, *a):
    k = (h, tuple((type(x), x) if not isinstance(x, (T, tuple)) else x for x in a))
    t = _table.get(k)
    if t is None:
        t = T(h, a)
        _table[k] = t
        b = BUDGET
        b[0] -= 1
        if b[0] < 0 or (b[0] & 1023) == 0 and time.monotonic() > b[1]:
            b[0], b[1] = 1 << 60, float("inf")
            raise OutOfBudget("term budget")
    return t


_uid = itertools.count(1)


def fresh(tag="v"):
    return mk("fv", next(_uid), tag)


# ------------------------------------------------------------------------------------------------
# traversal


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            stack = list(x)
            while stack:
                y = stack.pop()
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    stack.extend(y)


def free_vars(t):
    if t._free is None:
        if t.h == "fv":
            t._free = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t):
                s |= free_vars(c)
            t._free = s
    return t._free


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def heads(t):
    return {x.h for x in subterms(t)}


def size(t):
    if t._size is None:
        t._size = 1 + sum(size(c) for c in children(t))
    return t._size


def _map_arg(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map_arg(y, f) for y in x)
    return x


# binders: comp(spaces, cond, body) binds len(spaces) variables; lam(n, body) binds n;
# loop(spaces, inits, updates, guard) binds len(spaces)+len(inits) variables in updates and guard.


def _walk(t, depth, leaf):
    """Rebuild t bottom-up; ``leaf(term, depth)`` may return a replacement or None."""
    memo = {}

    def go(x, d):
        k = (x, d)
        if k in memo:
            return memo[k]
        r = leaf(x, d)
        if r is None:
            if x.h == "comp":
                spaces, cond, body = x.a
                n = len(spaces)
                r = comp(
                    tuple(go(s, d + i) for i, s in enumerate(spaces)), go(cond, d + n), go(body, d + n), closed=True
                )
            elif x.h == "lam":
                n, body = x.a
                r = mk("lam", n, go(body, d + n))
            elif x.h == "chain":
                start, link, guard = x.a
                r = mk("chain", go(start, d), link, go(guard, d + 1))
            elif x.h == "loop":
                spaces, inits, updates, guard = x.a
                n = len(spaces)
                m = n + len(inits)
                r = mk(
                    "loop",
                    tuple(go(s, d + i) for i, s in enumerate(spaces)),
                    tuple(go(s, d) for s in inits),
                    tuple(go(s, d + m) for s in updates),
                    go(guard, d + m),
                )
            else:
                r = rebuild(x, lambda c: go(c, d))
        memo[k] = r
        return r

    return go(t, depth)


def rebuild(x, f):
    """Re-apply the smart constructor of x to mapped children."""
    h = x.h
    if h in ("const", "var", "fv", "bv", "new", "class", "func", "builtin", "mod", "ext"):
        return x
    if h == "ite":
        return ite(f(x.a[0]), f(x.a[1]), f(x.a[2]))
    a = tuple(_map_arg(y, f) for y in x.a)
    return construct(h, a)


def construct(h, a):
    if h == "poly":
        terms, c = a
        return add_all([num(c)] + [scale_mono(m, k) for m, k in terms])
    if h in ("max", "min"):
        return minmax(h, list(a[0]))
    if h == "le":
        return le0(a[0])
    if h == "lt":
        return lt0(a[0])
    if h == "eq0":
        return eq0(a[0])
    if h == "eq":
        return eq(a[0], a[1])
    if h == "elem":
        return elem(a[0], a[1])
    if h == "slice":
        return slice_(a[0], a[1], a[2])
    if h == "len":
        return length(a[0])
    if h == "concat":
        return concat(list(a[0]))
    if h == "sum":
        return sum_of(a[0])
    if h == "exists":
        return exists(a[0])
    if h == "isnone":
        return isnone(a[0])
    if h == "nonempty":
        return nonempty(a[0])
    if h == "set":
        return set_of(a[0])
    if h == "union":
        return union(list(a[0]))
    if h == "diff":
        return diff(a[0], a[1])
    if h == "in":
        return contains(a[0], a[1])
    if h == "range":
        return range_(a[0], a[1])
    if h == "tupget":
        return tupget(a[0], a[1])
    if h == "first":
        return first(a[0])
    if h == "dictcomp":
        return dictcomp(a[0])
    if h in ATOM_HEADS:
        return bool_atom(mk(h, *a))
    return mk(h, *a)


def substitute(t, mapping):
    """Replace free terms (normally fresh variables) by terms."""
    keys = set(mapping)
    if not keys:
        return t
    onlyfv = all(k.h == "fv" for k in keys)

    def leaf(x, d):
        if x in keys:
            v = mapping[x]
            return shift(v, d) if d else v
        if onlyfv and not (free_vars(x) & keys):
            return x
        return None

    return _walk(t, 0, leaf)


def bv_max(t):
    """1 + the largest dangling de Bruijn index of t (0 when t is closed)."""
    if t._bvmax is None:
        if t.h == "bv":
            r = t.a[0] + 1
        elif t.h == "comp":
            spaces, cond, body = t.a
            n = len(spaces)
            r = max([bv_max(s) - i for i, s in enumerate(spaces)] + [bv_max(cond) - n, bv_max(body) - n, 0])
        elif t.h == "lam":
            r = max(bv_max(t.a[1]) - t.a[0], 0)
        elif t.h == "chain":
            r = max(bv_max(t.a[0]), bv_max(t.a[2]) - 1, 0)
        elif t.h == "loop":
            spaces, inits, updates, guard = t.a
            n = len(spaces)
            m = n + len(inits)
            r = max(
                [bv_max(s) - i for i, s in enumerate(spaces)]
                + [bv_max(s) for s in inits]
                + [bv_max(s) - m for s in updates]
                + [bv_max(guard) - m, 0]
            )
        else:
            r = max([bv_max(c) for c in children(t)] + [0])
        t._bvmax = r
    return t._bvmax


def shift(t, by):
    if by == 0 or bv_max(t) == 0:
        return t

    def leaf(x, d):
        if x.h == "bv":
            return mk("bv", x.a[0] + by) if x.a[0] >= d else x
        if bv_max(x) <= d:
            return x
        return None

    return _walk(t, 0, leaf)


def close(t, vs):
    """Abstract the fresh variables vs (outermost first) as the innermost len(vs) binders of t."""
    n = len(vs)
    pos = {v: n - 1 - i for i, v in enumerate(vs)}
    keys = set(vs)

    def leaf(x, d):
        if x.h == "fv":
            p = pos.get(x)
            return x if p is None else mk("bv", p + d)
        if x.h == "bv":
            return mk("bv", x.a[0] + n) if x.a[0] >= d else x
        if not (free_vars(x) & keys) and bv_max(x) <= d:
            return x
        return None

    return _walk(t, 0, leaf)


def open_(t, vs):
    """Instantiate the innermost len(vs) binders of t (outermost first) with the terms vs."""
    n = len(vs)

    def leaf(x, d):
        if x.h == "bv":
            k = x.a[0] - d
            if k < 0:
                return x
            if k < n:
                return shift(vs[n - 1 - k], d)
            return mk("bv", x.a[0] - n)
        if bv_max(x) <= d:
            return x
        return None

    return _walk(t, 0, leaf)


# ------------------------------------------------------------------------------------------------
# constants


def const(v):
    if isinstance(v, float) and v == v and abs(v) != math.inf and v == int(v) and abs(v) < 1e15:
        v = int(v)
    return mk("const", v)


TRUE = mk("const", True)
FALSE = mk("const", False)
NONE = mk("const", None)
UNDEF = mk("undef")
EMPTY = mk("tup", ())


def is_const(t):
    return t.h == "const"


def is_num_const(t):
    return t.h == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def is_bool(t):
    return t is TRUE or t is FALSE


def num(v):
    return const(v)


ZERO = num(0)
ONE = num(1)
INF = num(math.inf)
NINF = num(-math.inf)

# ------------------------------------------------------------------------------------------------
# decision trees

LIMIT = 600


def leaves(t):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.h == "ite":
            stack.append(x.a[1])
            stack.append(x.a[2])
        else:
            out.append(x)
    return out


def tree_atoms(t):
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.h == "ite":
            out.add(x.a[0])
            stack.append(x.a[1])
            stack.append(x.a[2])
    return out


def tree_size(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.h == "ite":
            stack.append(x.a[1])
            stack.append(x.a[2])
    return len(seen)


_restrict_memo = {}


def restrict(t, atom, val):
    if t.h != "ite":
        if t.h == "tup" and any(x.h in ("ite", "tup") for x in t.a[0]):
            return mk("tup", tuple(restrict(x, atom, val) for x in t.a[0]))
        return t
    k = (t, atom, val)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    a, x, y = t.a
    if a is atom:
        r = restrict(x if val else y, atom, val)
    else:
        imp = implied(atom, val, a)
        if imp is True:
            r = restrict(x, atom, val)
        elif imp is False:
            r = restrict(y, atom, val)
        else:
            r = _node(a, restrict(x, atom, val), restrict(y, atom, val))
    _restrict_memo[k] = r
    return r


def _node(atom, x, y):
    if x is y:
        return x
    if x.h == "tup" and y.h == "tup" and len(x.a[0]) == len(y.a[0]):
        # a choice between tuples is a tuple of choices
        b = mk("ite", atom, TRUE, FALSE)
        return mk("tup", tuple(ite(b, p, q) for p, q in zip(x.a[0], y.a[0])))
    if atom.h == "in" and y.h == "union" and (is_setlike(x) or kind_of[0](x) == "set"):
        # adding an element that is already there
        inside = atom.a[1] is x or (x.h == "union" and atom.a[1] in x.a[0])
        if inside and union([x, mk("set", mk("tup", (atom.a[0],)))]) is y:
            return y
    mm = _as_minmax(atom, x, y)
    if mm is not None:
        return mm
    return mk("ite", atom, x, y)


def _as_minmax(atom, x, y):
    """ite(x<=y, x, y) is min(x, y)."""
    if atom.h not in ("le", "lt", "nonempty") or x.h == "ite" or y.h == "ite":
        return None
    if atom.h == "nonempty" and (y.h not in ("const", "poly", "len") or x.h not in ("const", "poly", "len")):
        return None
    if x.h in ("undef", "tup", "comp") or y.h in ("undef", "tup", "comp"):
        return None
    if is_bool(x) or is_bool(y) or x is NONE or y is NONE:
        return None
    try:
        d = sub(x, y)
        # there is an element: 1 <= len
        q = sub(ONE, length(atom.a[0])) if atom.h == "nonempty" else atom.a[0]
    except TooBig:
        return None
    if d.h == "ite" or is_num_const(d):
        return None
    pd, pq = poly_of(d), poly_of(q)
    s = _proportional(pd, pq)
    if s is None and atom.h in ("le", "nonempty") and int_poly(q):
        # of integers, q <= 0 is q - 1 < 0
        s = _proportional(pd, (pq[0], pq[1] - 1))
    if s is None:
        return None
    return minmax("min" if s > 0 else "max", [x, y])


def _proportional(p, q):
    """p == s*q for a nonzero number s."""
    tp, cp = p
    tq, cq = q
    if set(tp) != set(tq) or not tp:
        return None
    s = None
    for m in tp:
        r = tp[m] / tq[m]
        if s is None:
            s = r
        elif abs(r - s) > 1e-12:
            return None
    if abs(cp - s * cq) > 1e-9 * max(1, abs(cp)):
        return None
    return s


def order(atom):
    # positional order: shallow, cheap-to-read atoms first; any total order is canonical
    return (size(atom), atom.key)


_ite_memo = {}


def ite(c, x, y):
    """General conditional: c is a boolean tree, x and y are trees."""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.h != "ite":
        c = as_bool(c)
        if c.h != "ite":
            return x if c is TRUE else y
    k = (c, x, y)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    r = minmax_by_tree(c, x, y)
    if r is None:
        r = _ite3(c, x, y, {}, [0])
    _ite_memo[k] = r
    return r


def minmax_by_tree(c, x, y):
    """ite(x<=y, x, y) where comparing takes several atoms: one of the two is itself a maximum or minimum."""
    if c.h != "ite" or c.a[1].h != "ite" and c.a[2].h != "ite":
        return None
    xs = list(leaves(x)) + list(leaves(y))
    if len(xs) > 8 or not any(extreme(z) for z in xs):
        return None
    if any(s.h == "mcall" for z in xs for s in subterms(z)):
        return None  # results of calls taken as they are: kept as decisions, which come out the same in any order
    if any(z.h in ("undef", "tup", "comp") or is_bool(z) or z is NONE for z in xs):
        return None
    try:
        if c is le(x, y) or c is lt(x, y):
            return minmax("min", [x, y])
        if c is le(y, x) or c is lt(y, x):
            return minmax("max", [x, y])
    except TooBig:
        pass
    return None


def extreme(x):
    if x.h in ("max", "min"):
        return True
    return x.h == "poly" and any(f.h in ("max", "min") for m in poly_of(x)[0] for f in m)


def _ite3(c, x, y, memo, budget):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    k = (c, x, y)
    r = memo.get(k)
    if r is not None:
        return r
    budget[0] += 1
    if budget[0] > LIMIT * 8:
        raise TooBig()
    tops = [t.a[0] for t in (c, x, y) if t.h == "ite"]
    top = min(tops, key=order)
    r = _node(
        top,
        _ite3(restrict(c, top, True), restrict(x, top, True), restrict(y, top, True), memo, budget),
        _ite3(restrict(c, top, False), restrict(x, top, False), restrict(y, top, False), memo, budget),
    )
    memo[k] = r
    return r


def lift(f, *args):
    """Apply f to the leaves of the trees in args, pointwise."""
    memo = {}
    budget = [0]

    def go(ts):
        r = memo.get(ts)
        if r is not None:
            return r
        budget[0] += 1
        if budget[0] > LIMIT:
            raise TooBig()
        tops = [t.a[0] for t in ts if t.h == "ite"]
        if not tops:
            if any(t is UNDEF for t in ts):
                r = UNDEF
            else:
                r = f(*ts)
        else:
            top = min(tops, key=order)
            r = ite(
                mk("ite", top, TRUE, FALSE),
                go(tuple(restrict(t, top, True) for t in ts)),
                go(tuple(restrict(t, top, False) for t in ts)),
            )
        memo[ts] = r
        return r

    return go(tuple(args))


def lift_list(f, items):
    return lift(lambda *xs: f(list(xs)), *items) if items else f([])


# ------------------------------------------------------------------------------------------------
# booleans

ATOM_HEADS = {"le", "lt", "eq0", "eq", "isnone", "nonempty", "in", "isinstance", "truthy", "exists", "raises", "bool"}


def bool_atom(a):
    return mk("ite", a, TRUE, FALSE)


def NOT(c):
    c = as_bool(c)
    return ite(c, FALSE, TRUE)


def AND(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, as_bool(c), FALSE)
    return r


def OR(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, as_bool(c))
    return r


def IMPLIES(a, b):
    return OR(NOT(a), b)


def entails(a, b):
    return IMPLIES(a, b) is TRUE


SEQ_HEADS = {"tup", "comp", "concat", "set", "union", "diff", "inter", "slice", "range", "dictv", "sorted", "reversed"}
NUM_HEADS = {"poly", "max", "min", "sum", "len", "mono"}

# set by the engine: returns one of 'obj', 'num', 'str', 'seq', 'bool', None
kind_of = [lambda t: None]
distinct = [lambda x, y: False]  # two fresh objects that only equal themselves


def truth(t):
    """Truth value of a Python value."""

    def leaf(x):
        if x.h == "const":
            return TRUE if x.a[0] else FALSE
        if x.h in ATOM_HEADS:
            return bool_atom(x)
        if x.h == "tup":
            return TRUE if x.a[0] else FALSE
        if x.h in ("comp", "concat", "set", "union", "diff", "inter", "slice", "sorted", "reversed"):
            return nonempty(x)
        if x.h in ("lam", "class", "func", "bound", "obj"):
            return TRUE
        k = kind_of[0](x)
        if x.h in NUM_HEADS or k == "num":
            return NOT(eq0(x))
        if k == "seq" or k == "str":
            return nonempty(x)
        if k == "obj":
            return NOT(isnone(x))
        return bool_atom(mk("truthy", x))

    return lift(leaf, t)


def as_bool(t):
    if t is TRUE or t is FALSE:
        return t
    if t.h == "ite" and all(l is TRUE or l is FALSE for l in leaves(t)):
        return t
    r = truth(t)
    if any(l is UNDEF for l in leaves(r)):
        r = _no_undef(r)
    return r


def _no_undef(t):
    if t is UNDEF:
        return FALSE
    if t.h != "ite":
        return t
    return _node(t.a[0], _no_undef(t.a[1]), _no_undef(t.a[2]))


def constrain(f, c):
    """Simplify f assuming c."""
    if f.h == "tup" and any(x.h in ("ite", "tup") for x in f.a[0]):
        return mk("tup", tuple(constrain(x, c) for x in f.a[0]))
    if c is TRUE or f.h != "ite":
        return f
    if c is FALSE:
        return f
    for a in sorted(tree_atoms(c), key=order):
        if restrict(c, a, False) is FALSE:
            f = restrict(f, a, True)
            c = restrict(c, a, True)
        elif restrict(c, a, True) is FALSE:
            f = restrict(f, a, False)
            c = restrict(c, a, False)
        if c is TRUE or f.h != "ite":
            return f
    # general care-set restriction, one atom of f at a time
    changed = True
    while changed and f.h == "ite":
        changed = False
        for a in sorted(tree_atoms(f), key=order):
            t = AND(c, bool_atom(a))
            if t is FALSE:
                f = restrict(f, a, False)
                changed = True
                break
            e = AND(c, NOT(bool_atom(a)))
            if e is FALSE:
                f = restrict(f, a, True)
                changed = True
                break
    return f


def implied(a, val, b):
    """Truth of atom b when atom a has value val: True, False or None (unknown)."""
    if a is b:
        return val
    ha, hb = a.h, b.h
    if ha in ("le", "lt", "eq0") and hb in ("le", "lt", "eq0"):
        return _implied_linear(ha, a.a[0], val, hb, b.a[0])
    if ha == "isinstance" and hb == "isinstance" and val and a.a[0] is b.a[0]:
        return class_relation[0](a.a[1], b.a[1])
    if ha == "isnone" and val:
        x = a.a[0]
        if hb in ("truthy", "nonempty") and b.a[0] is x:
            return False
        if hb == "isinstance" and b.a[0] is x:
            return False
    if hb == "isnone":
        x = b.a[0]
        if val and ha in ("truthy", "nonempty", "isinstance") and a.a[0] is x:
            return False
    if ha == "in" and val and hb == "nonempty" and a.a[1] is b.a[0]:
        return True
    if ha == "nonempty" and not val and hb == "in" and b.a[1] is a.a[0]:
        return False
    if ha == "exists" and hb == "nonempty" and val:
        c = a.a[0]
        if c.h == "comp" and c.a[0] and c.a[0][0] is b.a[0]:
            return True
    if ha == "nonempty" and hb == "exists" and not val:
        c = b.a[0]
        if c.h == "comp" and c.a[0] and c.a[0][0] is a.a[0]:
            return False
    return None


class_relation = [lambda c, d: None]


def _implied_linear(ha, p, val, hb, q):
    tp, cp = poly_of(p)
    tq, cq = poly_of(q)
    if set(tp) != set(tq) or not tp:
        return None
    # q = s*p + c
    s = None
    for m in tp:
        r = tq[m] / tp[m]
        if s is None:
            s = r
        elif abs(r - s) > 1e-12:
            return None
    c = cq - s * cp
    if abs(c) < 1e-12:
        c = 0
    # knowledge about p as an interval relation to 0
    # represent as set of (lo, lo_strict, hi, hi_strict)
    inf = math.inf
    if ha == "le":
        iv = (-inf, True, 0, False) if val else (0, True, inf, True)
    elif ha == "lt":
        iv = (-inf, True, 0, True) if val else (0, False, inf, True)
    else:
        if not val:
            if hb == "eq0" and c == 0:
                return False
            return None
        iv = (0, False, 0, False)
    lo, ls, hi, hs = iv
    if s > 0:
        qlo, qls, qhi, qhs = s * lo + c, ls, s * hi + c, hs
    else:
        qlo, qls, qhi, qhs = s * hi + c, hs, s * lo + c, ls
    if hb == "le":
        if qhi <= 0:
            return True
        if qlo > 0 or (qlo == 0 and qls):
            return False
    elif hb == "lt":
        if qhi < 0 or (qhi == 0 and qhs):
            return True
        if qlo >= 0:
            return False
    else:
        if qlo > 0 or qhi < 0 or (qlo == 0 and qls) or (qhi == 0 and qhs):
            return False
        if qlo == qhi == 0:
            return True
    return None


# ------------------------------------------------------------------------------------------------
# arithmetic


def poly_of(t):
    """(dict monomial->coef, constant); a monomial is a sorted tuple of factor terms."""
    if t.h == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return {}, t.a[0]
    if t.h == "const" and isinstance(t.a[0], bool):
        return {}, int(t.a[0])
    if t.h == "poly":
        terms, c = t.a
        return dict((m.a[0], k) for m, k in terms), c
    if t.h == "mono":
        return {t.a[0]: 1}, 0
    return {(t,): 1}, 0


def _norm_num(c):
    if isinstance(c, float) and c == c and abs(c) != math.inf:
        r = round(c, 12)
        if r == int(r) and abs(r) < 1e15:
            return int(r)
        return r
    return c


def from_poly(d, c):
    d = {m: _norm_num(k) for m, k in d.items()}
    d = {m: k for m, k in d.items() if k != 0}
    c = _norm_num(c)
    if not d:
        return num(c)
    if isinstance(c, float) and abs(c) == math.inf:
        return num(c)
    if len(d) == 1 and c == 0:
        ((m, k),) = d.items()
        if k == 1:
            return m[0] if len(m) == 1 else mk("mono", m)
    items = tuple(sorted(((mk("mono", m), k) for m, k in d.items()), key=lambda p: p[0].key))
    return mk("poly", items, c)


def scale_mono(m, k):
    if m.h == "mono":
        f = m.a[0]
        r = num(k)
        for x in f:
            r = mul(r, x)
        return r
    return mul(num(k), m)


def add2(a, b):
    def leaf(x, y):
        if x.h in ("tup", "concat", "comp", "str", "fmt", "slice") or y.h in ("tup", "concat", "comp", "str", "fmt", "slice"):
            if x.h == "fmt" or y.h == "fmt" or _is_str(x) or _is_str(y):
                return str_concat([x, y])
            return concat([x, y])
        kx, ky = kind_of[0](x), kind_of[0](y)
        if _is_str(x) or _is_str(y) or kx == "str" or ky == "str":
            return str_concat([x, y])
        if kx == "seq" or ky == "seq":
            return concat([x, y])
        p, c = poly_of(x)
        q, d = poly_of(y)
        r = dict(p)
        for m, k in q.items():
            r[m] = r.get(m, 0) + k
        return from_poly(r, c + d)

    return lift(leaf, a, b)


def add_all(ts):
    r = ZERO
    for t in ts:
        r = add2(r, t)
    return r


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    def leaf(x, y):
        if is_setlike(x) or is_setlike(y):
            return diff(x, y)
        p, c = poly_of(x)
        q, d = poly_of(y)
        r = dict(p)
        for m, k in q.items():
            r[m] = r.get(m, 0) - k
        if c == d and isinstance(c, float) and abs(c) == math.inf:
            return mk("nan")
        return from_poly(r, c - d)

    return lift(leaf, a, b)


def mul(a, b):
    def leaf(x, y):
        p, c = poly_of(x)
        q, d = poly_of(y)
        if (not p and c == 0) or (not q and d == 0):
            return ZERO
        r = {}
        for m, k in list(p.items()) + ([((), c)] if c != 0 else []):
            for n, l in list(q.items()) + ([((), d)] if d != 0 else []):
                mm = tuple(sorted(m + n, key=lambda t: t.key))
                r[mm] = r.get(mm, 0) + k * l
        c0 = r.pop((), 0)
        return from_poly(r, c0)

    return lift(leaf, a, b)


def div(a, b):
    def leaf(x, y):
        if is_num_const(y) and y.a[0] not in (0,):
            return mul(x, num(1 / y.a[0]))
        return mk("div", x, y)

    return lift(leaf, a, b)


def minmax(op, args):
    def leaf(*xs):
        out = []
        for x in xs:
            if x.h == op:
                out.extend(x.a[0])
            else:
                out.append(x)
        consts = [x.a[0] for x in out if is_num_const(x)]
        rest = [x for x in out if not is_num_const(x)]
        if consts:
            c = max(consts) if op == "max" else min(consts)
            absorb = -math.inf if op == "max" else math.inf
            if c == -absorb:
                return num(c)
            if c != absorb or not rest:
                rest.append(num(c))
        uniq = []
        for x in rest:
            if x not in uniq:
                uniq.append(x)
        if len(uniq) == 1:
            return uniq[0]
        # pull out a common additive part
        polys = [poly_of(x) for x in uniq]
        common = None
        for d, c in polys:
            if common is None:
                common = dict(d)
            else:
                common = {m: k for m, k in common.items() if d.get(m) == k}
        if common:
            rests = [from_poly({m: k for m, k in d.items() if m not in common}, c) for d, c in polys]
            return add2(from_poly(common, 0), minmax(op, rests))
        # dominated by constant offset
        keep = []
        for i, (d, c) in enumerate(polys):
            dom = False
            for j, (e, f) in enumerate(polys):
                if i != j and d == e and ((f > c) if op == "max" else (f < c)):
                    dom = True
            if not dom:
                keep.append(uniq[i])
        if len(keep) == 1:
            return keep[0]
        return mk(op, tuple(sorted(keep, key=lambda t: t.key)))

    return lift(leaf, *args)


is_int = [lambda t: False]


def int_poly(t):
    d, c = poly_of(t)
    if not isinstance(c, int):
        return False
    return all(isinstance(k, int) and all(is_int[0](f) for f in m) for m, k in d.items())


def _canon_sign(p):
    """Return (q, positive?) with leading coefficient of q equal to 1 (or positive unit for ints)."""
    d, c = poly_of(p)
    lead = min(d, key=lambda m: tuple(x.key for x in m))
    k = d[lead]
    s = abs(k)
    if int_poly(p):
        g = 0
        for v in d.values():
            g = math.gcd(g, int(abs(v)))
        if c % g == 0:
            s = g
        else:
            s = 1
        q = from_poly({m: (v // s if k > 0 else -v // s) for m, v in d.items()}, (c // s if k > 0 else -c // s))
    else:
        q = from_poly({m: (v / s if k > 0 else -v / s) for m, v in d.items()}, (c / s if k > 0 else -c / s))
    return q, k > 0


def _count_empty(q):
    """For a count (sum of lengths, plus a constant c >= 0): is it zero?  None when q is not a count."""
    d, c = poly_of(q)
    if not d or c < 0:
        return None
    r = TRUE
    for m, k in d.items():
        if k < 0 or len(m) != 1:
            return None
        f = m[0]
        if f.h == "len":
            r = AND(r, NOT(nonempty(f.a[0])))
        elif f.h == "sum" and f.a[0].h == "comp" and f.a[0].a[2] is ONE:
            r = AND(r, NOT(nonempty(f.a[0])))
        else:
            return None
    return r if c == 0 else FALSE


def le0(p):
    """p <= 0."""

    def leaf(x):
        if is_num_const(x):
            return TRUE if x.a[0] <= 0 else FALSE
        if x.h == "nan":
            return bool_atom(mk("truthy", x))
        q, pos = _canon_sign(x)
        isint = int_poly(q)
        e = _count_empty(q if pos or not isint else add2(q, ONE))
        if e is not None and (pos or isint):
            return e if pos else NOT(e)
        if pos:
            return bool_atom(mk("le", q))
        # -q <= 0  <=>  q >= 0
        if isint:
            return NOT(bool_atom(mk("le", add2(q, ONE))))
        return NOT(bool_atom(mk("lt", q)))

    return lift(leaf, p)


def lt0(p):
    def leaf(x):
        if is_num_const(x):
            return TRUE if x.a[0] < 0 else FALSE
        if x.h == "nan":
            return bool_atom(mk("truthy", x))
        if int_poly(x):
            return le0(add2(x, ONE))
        q, pos = _canon_sign(x)
        if pos:
            return bool_atom(mk("lt", q))
        return NOT(bool_atom(mk("le", q)))

    return lift(leaf, p)


def le(a, b):
    return _cmp(a, b, True)


def lt(a, b):
    return _cmp(a, b, False)


def _cmp(a, b, orequal):
    def leaf(x, y):
        if x.h in ("tup", "set", "call", "mcall", "str", "fmt") and y.h in ("tup", "set", "str", "fmt", "call", "mcall"):
            kx = kind_of[0](x)
            if kx != "num":
                # generic total preorder: a<=b, a<b == not b<=a
                if orequal:
                    return bool_atom(mk("bool", "le", x, y))
                return NOT(bool_atom(mk("bool", "le", y, x)))
        if is_num_const(x) and abs(x.a[0]) == math.inf or is_num_const(y) and abs(y.a[0]) == math.inf:
            if x is y:
                return TRUE if orequal else FALSE
            if is_num_const(x) and is_num_const(y):
                return TRUE if x.a[0] < y.a[0] else FALSE
            if x is NINF or y is INF:
                if orequal:
                    return TRUE
            if x is INF or y is NINF:
                if not orequal:
                    return FALSE
            return bool_atom(mk("bool", "le" if orequal else "lt", x, y))
        d = sub(x, y)
        if expand[0]:
            return spread_minmax(d, orequal)
        return le0(d) if orequal else lt0(d)

    return lift(leaf, a, b)


expand = [False]  # comparisons with extrema of a few numbers are comparisons with each


def spread_minmax(d, orequal):
    if d.h == "ite":
        return lift(lambda z: spread_minmax(z, orequal), d)
    terms, c = poly_of(d)
    for m, k in terms.items():
        if len(m) == 1 and m[0].h in ("max", "min") and len(m[0].a[0]) <= 6:
            rest = from_poly({n: q for n, q in terms.items() if n != m}, c)
            each = [spread_minmax(add2(rest, mul(num(k), z)), orequal) for z in m[0].a[0]]
            return AND(*each) if (m[0].h == "max") == (k > 0) else OR(*each)
    return le0(d) if orequal else lt0(d)


def eq0(p):
    def leaf(x):
        if is_num_const(x):
            return TRUE if x.a[0] == 0 else FALSE
        q, _ = _canon_sign(x)
        e = _count_empty(q)
        if e is not None:
            return e
        return bool_atom(mk("eq0", q))

    return lift(leaf, p)


def _is_str(x):
    return x.h in ("fmt", "join") or (x.h == "const" and isinstance(x.a[0], str))


def eq(a, b):
    def leaf(x, y):
        if x is y:
            return TRUE
        if x.h == "const" and y.h == "const":
            return TRUE if x.a[0] == y.a[0] else FALSE
        if x is NONE:
            return isnone(y)
        if y is NONE:
            return isnone(x)
        if x.h == "new" and y.h == "new" and distinct[0](x, y):
            return FALSE
        if x.h == "tup" and y.h == "tup":
            if len(x.a[0]) != len(y.a[0]):
                return FALSE
            return AND(*[eq(p, q) for p, q in zip(x.a[0], y.a[0])])
        if x.h == "dictv" and y.h == "dictv" and by_key(x) is by_key(y):
            return TRUE
        if is_bool(x):
            return as_bool(y) if x is TRUE else NOT(as_bool(y))
        if is_bool(y):
            return as_bool(x) if y is TRUE else NOT(as_bool(x))
        if x.h == "enum" and y.h == "enum" and x.a != y.a:
            return FALSE
        for p, q in ((x, y), (y, x)):
            if p.h == "class" and q.h == "class":
                return FALSE
            if p.h == "builtin" and q.h == "builtin":
                return FALSE
            if p is ZERO and q.h == "len":
                return NOT(nonempty(q.a[0]))
            if p.h == "tup" and not p.a[0] and kind_of[0](q) == "seq":
                return NOT(nonempty(q))
            if p.h == "new" and q.h != "new" and not any(z.h in ("new", "fv") for z in subterms(q)):
                # a freshly allocated object is not identical to anything that existed before
                if kind_of[0](p) == "obj":
                    return FALSE
        if x.h in NUM_HEADS or y.h in NUM_HEADS or is_num_const(x) or is_num_const(y):
            return eq0(sub(x, y))
        if kind_of[0](x) == "num" and kind_of[0](y) == "num":
            return eq0(sub(x, y))
        if y.key < x.key:
            x, y = y, x
        return bool_atom(mk("eq", x, y))

    return lift(leaf, a, b)


def isnone(t):
    def leaf(x):
        if x is NONE:
            return TRUE
        if x.h in ("const", "tup", "comp", "concat", "set", "union", "diff", "poly", "max", "min", "sum", "len", "new", "lpvar"):
            return FALSE
        if x.h in ("class", "func", "clo", "cfunc", "partial", "localclass", "lam", "obj", "bound", "fmt", "join", "builtin", "enum", "exists", "dictv", "slice", "range"):
            return FALSE
        if x.h in ("elem", "fv", "bv") and nonnull[0](x):
            return FALSE
        if x.h == "call" and x.a[0] is mk("ext", "random.Random"):
            return FALSE
        return bool_atom(mk("isnone", x))

    return lift(leaf, t)


def ground(k):
    """Whether k is a constant, or made of nothing else."""
    return k.h == "const" or k.h == "tup" and all(ground(x) for x in k.a[0])


def by_key(d):
    """A dictionary with its constant keys in a fixed order: the order they were set in does not make it another one."""
    if d.h != "dictv" or not all(ground(k) for k, _ in d.a[0]):
        return d
    return mk("dictv", tuple(sorted(d.a[0], key=lambda kv: kv[0].key)))


def dictcomp(c):
    """The dictionary of a sequence of pairs."""
    if c is EMPTY:
        return mk("dictv", ())
    if c.h == "tup" and all(p.h == "tup" and len(p.a[0]) == 2 and ground(p.a[0][0]) for p in c.a[0]):
        d = {p.a[0][0]: p.a[0][1] for p in c.a[0]}
        r = mk("dictv", tuple(d.items()))
        return r if expand[0] else by_key(r)
    if c.h == "tup" and all(p.h == "tup" and len(p.a[0]) == 2 and p.a[0][0].h == "new" for p in c.a[0]):
        d = {p.a[0][0]: p.a[0][1] for p in c.a[0]}
        ks = list(d)
        if all(eq(p, q) is FALSE for i, p in enumerate(ks) for q in ks[i + 1:]):
            return mk("dictv", tuple(d.items()))
    return mk("dictcomp", c)


nonnull = [lambda t: False]


def str_concat(parts):
    out = []
    for p in parts:
        if p.h == "fmt":
            out.extend(p.a[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if p.h == "const" and isinstance(p.a[0], str):
            if p.a[0] == "":
                continue
            if res and res[-1].h == "const" and isinstance(res[-1].a[0], str):
                res[-1] = const(res[-1].a[0] + p.a[0])
                continue
        res.append(p)
    if not res:
        return const("")
    if len(res) == 1 and (res[0].h == "const" or res[0].h == "join"):
        return res[0]
    return mk("fmt", tuple(res))


# ------------------------------------------------------------------------------------------------
# sequences, sets and iteration


def is_setlike(t):
    return t.h in ("set", "union", "diff", "inter") or kind_of[0](t) == "set"


def tup(items):
    return mk("tup", tuple(items))


def concat(parts):
    def leaf(*xs):
        out = []
        for x in xs:
            if x.h == "concat":
                out.extend(x.a[0])
            elif x.h == "tup" and not x.a[0]:
                continue
            else:
                out.append(x)
        res = []
        for x in out:
            if res and x.h == "tup" and res[-1].h == "tup":
                res[-1] = mk("tup", res[-1].a[0] + x.a[0])
            elif res and x.h == "slice" and res[-1].h == "slice" and res[-1].a[0] is x.a[0] and res[-1].a[2] is x.a[1]:
                res[-1] = slice_(x.a[0], res[-1].a[1], x.a[2])
            elif (
                res
                and x.h == "slice"
                and res[-1].h == "tup"
                and res[-1].a[0]
                and res[-1].a[0][-1] is elem(x.a[0], sub(x.a[1], ONE))
                and x.a[1] is not ZERO
            ):
                s = slice_(x.a[0], sub(x.a[1], ONE), x.a[2])
                last = mk("tup", res[-1].a[0][:-1])
                res.pop()
                if last.a[0]:
                    res.append(last)
                if res and res[-1].h == "slice" and s.h == "slice" and res[-1].a[0] is s.a[0] and res[-1].a[2] is s.a[1]:
                    res[-1] = slice_(s.a[0], res[-1].a[1], s.a[2])
                else:
                    res.append(s)
            elif (
                res
                and x.h == "tup"
                and res[-1].h == "slice"
                and x.a[0][0] is elem(res[-1].a[0], res[-1].a[2])
            ):
                p = res[-1]
                res[-1] = slice_(p.a[0], p.a[1], add2(p.a[2], ONE))
                if len(x.a[0]) > 1:
                    res.append(mk("tup", x.a[0][1:]))
            else:
                res.append(x)
        if not res:
            return EMPTY
        if len(res) == 1:
            return res[0]
        return mk("concat", tuple(res))

    return lift(leaf, *parts) if parts else EMPTY


def length(t):
    def leaf(x):
        if x.h == "tup":
            return num(len(x.a[0]))
        if x.h == "concat":
            return add_all([length(p) for p in x.a[0]])
        if x.h == "slice":
            return sub(x.a[2], x.a[1])
        if x.h == "range":
            return sub(x.a[1], x.a[0])
        if x.h == "comp":
            return sum_of(comp(x.a[0], x.a[1], ONE, closed=True))
        if x.h in ("reversed", "sorted"):
            return length(x.a[0])
        if x.h == "const" and isinstance(x.a[0], str):
            return num(len(x.a[0]))
        if x.h == "dictv" and all(ground(k) for k, _ in x.a[0]):
            return num(len({k for k, _ in x.a[0]}))
        if x.h == "set" and x.a[0].h == "tup":
            xs = x.a[0].a[0]
            if all(y.h == "const" for y in xs):
                return num(len({y.a[0] for y in xs}))
            if len(xs) == 1 or all(y.h == "new" for y in xs) and all(eq(p, q) is FALSE for i, p in enumerate(xs) for q in xs[i + 1:]):
                return num(len(xs))
        return mk("len", x)

    return lift(leaf, t)


def norm_index(seq, i):
    """A negative constant index, or len(seq)-relative, as an offset from the start."""
    if is_num_const(i) and i.a[0] < 0:
        return add2(length(seq), i)
    return i


def first(c):
    """The first element of a sequence (of a comprehension: its body at the first index that passes the filter)."""
    def leaf(x):
        if x.h == "tup":
            return x.a[0][0] if x.a[0] else UNDEF
        if x.h == "comp" and len(x.a[0]) == 1:
            spaces, cond, body = x.a
            if not (body.h == "bv" and body.a[0] == 0):
                base = comp(spaces, cond, mk("bv", 0), True)
                return open_(body, [first(base)])
        return mk("first", x)

    return lift(leaf, c)


def _at_first(s, x):
    """S[first index with P(S[index])] is the first element of S with P."""
    for f in free_firsts(x):
        c = f.a[0]
        if c.h != "comp" or len(c.a[0]) != 1 or c.a[0][0].h != "range" or c.a[2].h != "bv":
            continue
        d = sub(x, f)
        if f in subterms(d) or d.h == "ite":
            continue
        v = fresh("i")
        on_fresh[0](v, c.a[0][0])
        r = comp_of([v], [c.a[0][0]], open_(c.a[1], [v]), elem(s, add2(v, d)))
        if r.h == "comp" and r.a[0][0].h != "range":
            return first(r)
    return None


def free_firsts(x):
    if x.h == "first":
        return [x]
    if x.h == "poly":
        return [m.a[0][0] for m, k in x.a[0] if len(m.a[0]) == 1 and m.a[0][0].h == "first"]
    return []


def elem(seq, i):
    def leaf(s, x):
        x = norm_index(s, x)
        if x.h in ("first", "poly"):
            r = _at_first(s, x)
            if r is not None:
                return r
        if s.h == "tup":
            n = len(s.a[0])
            if is_num_const(x) and isinstance(x.a[0], int) and 0 <= x.a[0] < n:
                return s.a[0][x.a[0]]
            return mk("elem", s, x)
        if s.h == "slice":
            return elem(s.a[0], add2(s.a[1], x))
        if s.h == "concat":
            off = x
            for p in s.a[0]:
                n = length(p)
                d = sub(off, n)
                if p.h == "tup" and is_num_const(off) and 0 <= off.a[0] < len(p.a[0]):
                    return elem(p, off)
                if is_num_const(d):
                    if d.a[0] < 0:
                        # inside p, counted from its end
                        if p.h == "tup":
                            return elem(p, add2(n, d))
                        return elem(p, off)
                    off = d
                    continue
                if is_num_const(off) and off.a[0] == 0 and p.h == "slice":
                    # non-constant length, index zero: only decidable when the part is non-empty
                    return mk("elem", s, x)
                # sign of d unknown
                sign = sign_of[0](d)
                if sign is not None and sign < 0:
                    return elem(p, off)
                if sign is not None and sign >= 0:
                    off = d
                    continue
                return mk("elem", s, x)
            return mk("elem", s, x)
        if s.h == "comp" and len(s.a[0]) == 1 and s.a[1] is TRUE and s.a[0][0].h != "set":
            return open_(s.a[2], [elem(s.a[0][0], x)])
        if s.h == "range":
            return add2(s.a[0], x)
        if s.h == "reversed":
            return elem(s.a[0], sub(sub(length(s.a[0]), ONE), x))
        if s.h == "dictv":
            for k, v in s.a[0]:
                if k is x:
                    return v
        return mk("elem", s, x)

    return lift(leaf, seq, i)


sign_of = [lambda t: None]


def slice_(seq, lo, hi):
    """seq[lo:hi]; hi None means the end."""

    def leaf(s, a, b):
        n = length(s)
        a = norm_index(s, a)
        if b is NONE:
            b = n
        b = norm_index(s, b)
        if a is ZERO and b is n:
            return s
        if a is b:
            return EMPTY
        if s.h == "tup" and is_num_const(a) and is_num_const(b):
            return mk("tup", s.a[0][a.a[0] : b.a[0]])
        if s.h == "slice":
            return slice_(s.a[0], add2(s.a[1], a), add2(s.a[1], b))
        if s.h == "range":
            return range_(add2(s.a[0], a), add2(s.a[0], b))
        if s.h == "concat":
            # cut at part boundaries when the offsets are comparable
            parts, lo_, hi_ = [], a, b
            ok = True
            for p in s.a[0]:
                m = length(p)
                # clamp [lo_, hi_) to [0, m)
                l, okl = _clamp(lo_, m)
                h, okh = _clamp(hi_, m)
                if not (okl and okh):
                    ok = False
                    break
                if l is not h:
                    parts.append(slice_(p, l, h))
                lo_, hi_ = sub(lo_, m), sub(hi_, m)
            if ok:
                return concat(parts)
        return mk("slice", s, a, b)

    if hi is None:
        hi = NONE
    return lift(leaf, seq, lo, hi)


def _clamp(x, m):
    """x clamped to [0, m], when decidable."""
    if x is ZERO:
        return ZERO, True
    if x is m:
        return m, True
    d = sub(x, m)
    if is_num_const(x) and x.a[0] <= 0:
        return ZERO, True
    if is_num_const(d):
        if d.a[0] >= 0:
            return m, True
        # within, provided x >= 0
        s = sign_of[0](x)
        if is_num_const(x) or (s is not None and s >= 0):
            return x, True
        return x, True
    s = sign_of[0](d)
    if s is not None and s >= 0:
        return m, True
    s0 = sign_of[0](x)
    if s is not None and s <= 0 and s0 is not None and s0 >= 0:
        return x, True
    if s0 is not None and s0 <= 0:
        return ZERO, True
    return x, False


def range_(lo, hi):
    def leaf(a, b):
        if is_num_const(a) and is_num_const(b):
            n = b.a[0] - a.a[0]
            if n <= 0:
                return EMPTY
            if n <= 12:
                return tup([num(i) for i in range(a.a[0], b.a[0])])
        return mk("range", a, b)

    return lift(leaf, lo, hi)


def tupget(t, i):
    def leaf(x):
        if x.h == "tup" and 0 <= i < len(x.a[0]):
            return x.a[0][i]
        return mk("tupget", x, i)

    return lift(leaf, t)


class Part:
    """One homogeneous piece of an iteration: bound variables, filter, produced element."""

    __slots__ = ("vs", "spaces", "cond", "elem")

    def __init__(self, vs, spaces, cond, elem):
        self.vs = vs
        self.spaces = spaces
        self.cond = cond
        self.elem = elem


on_fresh = [lambda v, space: None]  # engine hook: record type of a bound variable


def bind(space, tag="e"):
    v = fresh(tag)
    on_fresh[0](v, space)
    return v


def parts_of(seq):
    """Decompose an iterable into Parts whose concatenation it is."""
    if seq.h == "ite":
        out = []
        c, x, y = seq.a
        cb = bool_atom(c)
        for p in parts_of(x):
            out.append(Part(p.vs, p.spaces, AND(cb, p.cond), p.elem))
        for p in parts_of(y):
            out.append(Part(p.vs, p.spaces, AND(NOT(cb), p.cond), p.elem))
        return out
    if seq.h == "tup":
        return [Part([], [], TRUE, x) for x in seq.a[0]]
    if seq.h in ("concat",):
        return [q for p in seq.a[0] for q in parts_of(p)]
    if seq.h == "comp":
        spaces, cond, body = seq.a
        vs, sp = [], []
        for s in spaces:
            s = open_(s, vs)
            vs = vs + [bind(s)]
            sp.append(s)
        return [Part(vs, sp, open_(cond, vs), open_(body, vs))]
    if seq.h == "set":
        inner = parts_of(seq.a[0])
        if len(inner) == 1 and not inner[0].vs:
            return inner
        if all(not p.vs and p.cond is TRUE for p in inner):
            return inner
        v = bind(seq)
        return [Part([v], [seq], TRUE, v)]
    if seq.h == "enumerate":
        s, start = seq.a
        i = bind(range_(ZERO, length(s)), "i")
        sp = range_(ZERO, length(s))
        if sp.h != "range":
            return [Part([], [], TRUE, tup([add2(start, num(k)), elem(s, num(k))])) for k in range(len(sp.a[0]))]
        return [Part([i], [sp], TRUE, tup([add2(start, i), elem(s, i)]))]
    if seq.h == "zip":
        ss = seq.a[0]
        if all(s.h == "tup" for s in ss):
            return [Part([], [], TRUE, tup(x)) for x in zip(*[s.a[0] for s in ss])]
        n = length(ss[0])
        for s in ss[1:]:
            m = length(s)
            if m is not n:
                n = minmax("min", [n, m])
        sp = range_(ZERO, n)
        i = bind(sp, "i")
        return [Part([i], [sp], TRUE, tup([elem(s, i) for s in ss]))]
    if seq.h == "product":
        vs, sp, els = [], [], []
        parts = [Part([], [], TRUE, EMPTY)]
        for s in seq.a[0]:
            nxt = []
            for p in parts:
                for q in parts_of(s):
                    nxt.append(
                        Part(
                            p.vs + q.vs,
                            p.spaces + q.spaces,
                            AND(p.cond, q.cond),
                            mk("tup", p.elem.a[0] + (q.elem,)),
                        )
                    )
            parts = nxt
        return parts
    if seq.h == "combinations":
        s, r = seq.a
        if r == 2:
            n = length(s)
            sp1 = range_(ZERO, n)
            if sp1.h == "range":
                i = bind(sp1, "i")
                sp2 = range_(add2(i, ONE), n)
                j = bind(sp2, "j")
                return [Part([i, j], [sp1, sp2], TRUE, tup([elem(s, i), elem(s, j)]))]
    if seq.h == "reversed" and seq.a[0].h == "tup":
        return [Part([], [], TRUE, x) for x in reversed(seq.a[0].a[0])]
    if seq.h == "reversed" and seq.a[0].h == "comp":
        spaces, cond, body = seq.a[0].a
        if len(spaces) == 1:
            sp = mk("reversed", spaces[0])
            v = bind(sp)
            return [Part([v], [sp], open_(cond, [v]), open_(body, [v]))]
    if seq.h == "dictitems" and seq.a[0].h == "dictv":
        return [Part([], [], TRUE, tup([k, v])) for k, v in seq.a[0].a[0]]
    v = bind(seq)
    return [Part([v], [seq], TRUE, v)]


def from_parts(parts):
    out = []
    for p in parts:
        out.append(comp_of(p.vs, p.spaces, p.cond, p.elem))
    return concat(out)


def comp_of(vs, spaces, cond, body):
    """Build the canonical comprehension from named (fresh) variables."""
    if cond is FALSE:
        return EMPTY
    if not vs:
        if cond is TRUE:
            return tup([body])
        return ite(cond, tup([body]), EMPTY)
    sp = tuple(close(s, vs[:i]) for i, s in enumerate(spaces))
    return comp(sp, close(cond, vs), close(body, vs), closed=True)


def comp(spaces, cond, body, closed):
    """Canonicalise a closed comprehension."""
    n = len(spaces)
    if n == 0:
        if cond is TRUE:
            return tup([body])
        return ite(cond, tup([body]), EMPTY)
    if cond is FALSE:
        return EMPTY
    # flatten spaces that are themselves conditional, unions of pieces or comprehensions
    for i, s in enumerate(spaces):
        if s.h in ("comp", "concat", "tup", "ite", "enumerate", "zip", "product") or (
            s.h == "combinations" and s.a[1] == 2
        ):
            return _expand(spaces, cond, body, i)
    # index binders that only select elements
    for i, s in enumerate(spaces):
        if s.h == "range":
            r = _deindex(spaces, cond, body, i)
            if r is not None:
                return r
    # filter belongs to the innermost binder; conditions independent of all binders move out
    if body.h == "bv" and body.a[0] == 0 and n == 1 and cond is TRUE:
        return spaces[0]
    # a condition that does not depend on any bound variable is hoisted
    if cond.h == "ite":
        hoist = [a for a in tree_atoms(cond) if not _mentions_bv(a, n)]
        if hoist:
            a = min(hoist, key=order)
            sa = shift_down(a, n)
            return ite(
                bool_atom(sa),
                comp(spaces, restrict(cond, a, True), restrict(body, a, True), True),
                comp(spaces, restrict(cond, a, False), restrict(body, a, False), True),
            )
    if body.h == "ite":
        hoist = [a for a in tree_atoms(body) if not _mentions_bv(a, n)]
        if hoist:
            a = min(hoist, key=order)
            sa = shift_down(a, n)
            return ite(
                bool_atom(sa),
                comp(spaces, restrict(cond, a, True), restrict(body, a, True), True),
                comp(spaces, restrict(cond, a, False), restrict(body, a, False), True),
            )
        body = constrain(body, cond)
    return mk("comp", tuple(spaces), cond, body)


def shift_down(t, n):
    def leaf(x, d):
        if x.h == "bv":
            return mk("bv", x.a[0] - n) if x.a[0] >= d + n else x
        if bv_max(x) <= d:
            return x
        return None

    return _walk(t, 0, leaf)


def _mentions_bv(t, n):
    """Does t mention one of the innermost n binders?"""
    if bv_max(t) == 0:
        return False
    found = []

    def leaf(x, d):
        if x.h == "bv":
            if d <= x.a[0] < d + n:
                found.append(x)
            return x
        if bv_max(x) <= d:
            return x
        return None

    _walk(t, 0, leaf)
    return bool(found)


def _expand(spaces, cond, body, i):
    n = len(spaces)
    vs, sp = [], []
    for k in range(i):
        s = open_(spaces[k], vs)
        vs = vs + [bind(s)]
        sp.append(s)
    target = open_(spaces[i], vs)
    out = []
    for p in parts_of(target):
        vs2 = vs + p.vs
        sp2 = sp + list(p.spaces)
        names = vs + [p.elem]
        vs3, sp3 = list(vs2), list(sp2)
        for k in range(i + 1, n):
            s = open_(spaces[k], names)
            v = bind(s)
            vs3.append(v)
            sp3.append(s)
            names = names + [v]
        out.append(comp_of(vs3, sp3, AND(p.cond, open_(cond, names)), open_(body, names)))
    return concat(out)


def _deindex(spaces, cond, body, i):
    """Binder over range(lo, hi): shift to start at 0; if used only as S[i+c], bind over the slice."""
    lo, hi = spaces[i].a
    n = len(spaces)
    vs, sp = [], []
    for k in range(i):
        s = open_(spaces[k], vs)
        vs = vs + [bind(s)]
        sp.append(s)
    lo, hi = open_(lo, vs), open_(hi, vs)
    v = fresh("i")
    on_fresh[0](v, mk("range", lo, hi))
    vs_i = vs + [v]
    rest_sp, names = [], list(vs_i)
    for k in range(i + 1, n):
        s = open_(spaces[k], names)
        w = bind(s)
        names.append(w)
        rest_sp.append(s)
    c, b = open_(cond, names), open_(body, names)
    seqs = set()
    other = [False]

    def scan(t):
        for x in [t]:
            stack = [x]
            seen = set()
            while stack:
                y = stack.pop()
                if y in seen or v not in free_vars(y):
                    continue
                seen.add(y)
                if y is v:
                    other[0] = True
                    continue
                if y.h == "elem" and v in free_vars(y.a[1]) and v not in free_vars(y.a[0]):
                    d = sub(y.a[1], v)
                    if d.h != "ite" and v not in free_vars(d) and not (free_vars(d) - set(vs) & set(names)):
                        seqs.add((y.a[0], d))
                        continue
                stack.extend(children(y))

    for t in rest_sp + [c, b]:
        scan(t)
    if not other[0] and len(seqs) == 1:
        ((s, d),) = seqs
        if not (free_vars(s) & set(names[i:])) and not (free_vars(d) & set(names[i:])):
            space = slice_(s, add2(lo, d), add2(hi, d))
            w = bind(space)
            m = {elem(s, add2(v, d)): w}
            rs = [substitute(x, m) for x in rest_sp]
            nn = vs + [w] + names[i + 1 :]
            return comp_of(nn, sp + [space] + rs, substitute(c, m), substitute(b, m))
    if lo is not ZERO:
        m = {v: add2(v, lo)}
        rs = [substitute(x, m) for x in rest_sp]
        sp0 = range_(ZERO, sub(hi, lo))
        if sp0.h == "range":
            return comp_of(names, sp + [sp0] + rs, substitute(c, m), substitute(b, m))
    return None


def sum_of(seq):
    """sum(seq) split by linearity."""

    def leaf(s):
        total = ZERO
        for p in parts_of(s):
            total = add2(total, _sum_part(p))
        return total

    return lift(leaf, seq)


def _sum_part(p):
    total = ZERO
    # split the body by leaf value
    groups = {}
    body = constrain(p.elem, p.cond)

    def paths(t, cond):
        if cond is FALSE:
            return
        if t.h == "ite":
            a = bool_atom(t.a[0])
            paths(t.a[1], AND(cond, a))
            paths(t.a[2], AND(cond, NOT(a)))
        else:
            groups[t] = OR(groups.get(t, FALSE), cond)

    paths(body, p.cond)
    for leafv, cond in groups.items():
        if leafv is UNDEF:
            continue
        if not p.vs:
            total = add2(total, ite(cond, leafv, ZERO))
            continue
        d, c = poly_of(leafv)
        items = list(d.items()) + ([((), c)] if c else [])
        for m, k in items:
            inner = [f for f in m if free_vars(f) & set(p.vs)]
            outer = [f for f in m if f not in inner]
            if len(inner) + len(outer) != len(m):
                inner, outer = list(m), []
            nest = [f for f in inner if f.h in ("sum", "len")]
            if nest:
                # a sum of sums is a sum over the product of the spaces
                f = min(nest, key=order)
                rest = list(inner)
                rest.remove(f)
                r = ONE
                for g in rest + outer:
                    r = mul(r, g)
                for q in parts_of(f.a[0]):
                    e = q.elem if f.h == "sum" else ONE
                    n = Part(p.vs + q.vs, p.spaces + q.spaces, AND(cond, q.cond), mul(e, r))
                    total = add2(total, mul(num(k), _sum_part(n)))
                continue
            body_t = ONE
            for f in inner:
                body_t = mul(body_t, f)
            cc = comp_of(p.vs, p.spaces, cond, body_t)
            s = lift(_mk_sum, cc)
            for f in outer:
                s = mul(s, f)
            total = add2(total, mul(num(k), s))
    return total


def _mk_sum(x):
    if x.h == "tup":
        return add_all(list(x.a[0]))
    if x.h == "comp" and x.a[2] is ONE and len(x.a[0]) == 1 and x.a[1] is TRUE:
        return length(x.a[0][0])
    if x.h == "concat":
        return sum_of(x)
    return mk("sum", x)


def exists(seq):
    """any(seq): is there an element that is true."""

    def leaf(s):
        r = FALSE
        for p in parts_of(s):
            c = AND(p.cond, as_bool(p.elem))
            r = OR(r, exists_part(p.vs, p.spaces, c))
        return r

    return lift(leaf, seq)


def prime_cubes(c):
    """Prime implicants of a decision tree, as frozensets of (atom, value)."""
    if c is TRUE:
        return [frozenset()]
    if c is FALSE:
        return []
    atom, hi, lo = c.a
    both = prime_cubes(AND(hi, lo))
    out = list(both)
    for branch, val in ((hi, True), (lo, False)):
        for p in prime_cubes(branch):
            if not any(q <= p for q in both):
                out.append(p | {(atom, val)})
    return out


def exists_part(vs, spaces, c):
    """Is there an assignment of vs in spaces with c."""
    if not vs:
        return c
    if c is FALSE:
        return FALSE
    if c is not TRUE:
        atoms = tree_atoms(c)
        if len(atoms) > 7:
            return _exists_cube(vs, spaces, c)
        cubes = prime_cubes(c)
        if len(cubes) > 8:
            return _exists_cube(vs, spaces, c)
        r = FALSE
        for cube in cubes:
            outer, inner, nest = TRUE, TRUE, None
            for a, val in sorted(cube, key=lambda p: order(p[0])):
                lit = bool_atom(a) if val else NOT(bool_atom(a))
                if not free_vars(a) & set(vs):
                    outer = AND(outer, lit)
                elif val and a.h in ("exists", "nonempty") and nest is None:
                    nest = a
                else:
                    inner = AND(inner, lit)
            if nest is None:
                r = OR(r, AND(outer, _exists_cube(vs, spaces, inner)))
                continue
            # exists x: p(x) and exists y: q(x, y)  ==  exists x, y: p(x) and q(x, y)
            for q in parts_of(nest.a[0]):
                cond = AND(inner, q.cond)
                if nest.h == "exists":
                    cond = AND(cond, as_bool(q.elem))
                r = OR(r, AND(outer, exists_part(vs + q.vs, spaces + q.spaces, cond)))
        return r
    return _exists_cube(vs, spaces, c)


def _exists_cube(vs, spaces, c):
    if c is FALSE:
        return FALSE
    cc = comp_of(vs, spaces, c, TRUE)

    def leaf(x):
        if x.h == "tup":
            return OR(*[as_bool(y) for y in x.a[0]])
        if x.h == "concat":
            return OR(*[leaf(y) for y in x.a[0]])
        if x.h == "comp":
            spaces_, cond, body = x.a
            if cond is TRUE and len(spaces_) == 1:
                return nonempty(spaces_[0])
            e = cond.a[0] if cond.h == "ite" and cond.a[1] is TRUE and cond.a[2] is FALSE else cond
            if len(spaces_) == 1 and e.h == "eq" and spaces_[0].h not in ("range", "ite"):
                # some element equals e: e is in there
                v = bind(spaces_[0])
                e = open_(e, [v])
                e = e.a[0] if e.h == "ite" else e
                for x_, y_ in (e.a, e.a[::-1]) if e.h == "eq" else ():
                    if x_ is v and v not in free_vars(y_):
                        return contains(y_, spaces_[0])
            # disjunctions split so that any(p or q) == any(p) or any(q): not done (canonical as one)
            return bool_atom(mk("exists", x))
        return nonempty(x)

    return lift(leaf, cc)


def conj(items):
    """All of many conditions, as the set of them (a decision tree would outgrow its budget)."""
    out = set()

    def add(x):
        x = as_bool(x)
        while x.h == "ite" and FALSE in (x.a[1], x.a[2]):
            at = bool_atom(x.a[0])
            if x.a[2] is FALSE:
                out.add(at)
                x = x.a[1]
            else:
                out.add(NOT(at))
                x = x.a[2]
        if x is not TRUE:
            out.add(x)

    for x in items:
        add(x)
    if FALSE in out:
        return FALSE
    least, most, rest = {}, {}, set()
    for x in out:
        a = x.a[0]
        if x.h == "ite" and isinstance(a, T) and (a.h == "le" and x.a[1] is TRUE or a.h == "lt" and x.a[1] is FALSE):
            d, c = poly_of(a.a[0])
            side, sign = (most, 1) if a.h == "le" else (least, -1)
            k = from_poly(d, 0)
            # p + c <= 0, or p + c >= 0: the strictest of them
            if k not in side or sign * c > sign * side[k]:
                side[k] = c
        else:
            rest.add(x)
    for k in list(most):
        if k in least and least[k] == most[k]:
            rest.add(eq0(add2(k, num(most.pop(k)))))
            del least[k]
    rest |= {le0(add2(k, num(c))) for k, c in most.items()} | {NOT(lt0(add2(k, num(c)))) for k, c in least.items()}
    return mk("conj", tuple(sorted(rest, key=lambda x: x.key)))


def forall(seq):
    def leaf(s):
        r = FALSE
        for p in parts_of(s):
            c = AND(p.cond, NOT(as_bool(p.elem)))
            r = OR(r, exists_part(p.vs, p.spaces, c))
        return NOT(r)

    return lift(leaf, seq)


def nonempty(t):
    def leaf(x):
        if x.h == "tup":
            return TRUE if x.a[0] else FALSE
        if x.h == "concat":
            return OR(*[nonempty(p) for p in x.a[0]])
        if x.h == "comp":
            vs = []
            sp = []
            for s in x.a[0]:
                s = open_(s, vs)
                vs = vs + [bind(s)]
                sp.append(s)
            return exists_part(vs, sp, open_(x.a[1], vs))
        if x.h in ("set", "sorted", "reversed"):
            return nonempty(x.a[0])
        if x.h == "union":
            return OR(*[nonempty(p) for p in x.a[0]])
        if x.h == "range":
            return lt(x.a[0], x.a[1])
        if x.h == "const" and isinstance(x.a[0], str):
            return TRUE if x.a[0] else FALSE
        if x.h == "diff":
            # some element of a outside b
            return exists_part(*_diff_parts(x))
        return bool_atom(mk("nonempty", x))

    return lift(leaf, t)


def _diff_parts(x):
    a, b = x.a
    v = bind(a)
    return [v], [a], NOT(contains(v, b))


def contains(x, c):
    def leaf(e, s):
        if s.h == "tup":
            return OR(*[eq(e, y) for y in s.a[0]])
        if s.h in ("set", "sorted", "reversed"):
            return contains(e, s.a[0])
        if s.h == "concat":
            return OR(*[contains(e, p) for p in s.a[0]])
        if s.h == "union":
            return OR(*[contains(e, p) for p in s.a[0]])
        if s.h == "diff":
            return AND(contains(e, s.a[0]), NOT(contains(e, s.a[1])))
        if s.h == "comp":
            r = FALSE
            for p in parts_of(s):
                r = OR(r, exists_part(p.vs, p.spaces, AND(p.cond, eq(p.elem, e))))
            return r
        if s.h == "fmt" and any(e is p for p in s.a[0]):
            return TRUE
        return bool_atom(mk("in", e, s))

    return lift(leaf, x, c)


def set_of(t):
    def leaf(x):
        if x.h in ("set", "union", "diff", "inter"):
            return x
        if x.h == "concat":
            return union([set_of(p) for p in x.a[0]])
        if x.h == "tup":
            if not x.a[0]:
                return mk("set", EMPTY)
            if len(x.a[0]) <= 4 and any(y.h == "ite" for y in x.a[0]):
                try:
                    return lift(lambda *ys: mk("set", tup(sorted(set(ys), key=lambda y: y.key))), *x.a[0])
                except TooBig:
                    pass
            uniq = sorted(set(x.a[0]), key=lambda y: y.key)
            return mk("set", tup(uniq))
        if x.h in ("sorted", "reversed"):
            return set_of(x.a[0])
        if x.h == "comp":
            # order and repetition of what is drawn from do not matter
            sp = tuple(y.a[0] if y.h in ("set", "sorted", "reversed") else y for y in x.a[0])
            if sp != x.a[0]:
                return set_of(comp(sp, x.a[1], x.a[2], True))
            return mk("set", x)
        if kind_of[0](x) == "set":
            return x
        return mk("set", x)

    return lift(leaf, t)


def union(parts):
    def leaf(*xs):
        out = []
        for x in xs:
            if x.h == "union":
                out.extend(x.a[0])
            else:
                x = set_of(x)
                if x.h == "union":
                    out.extend(x.a[0])
                else:
                    out.append(x)
        units = []
        rest = []
        for x in out:
            if x.h == "set" and x.a[0].h == "tup":
                units.extend(x.a[0].a[0])
            elif x not in rest:
                rest.append(x)
        if units:
            u = set_of(tup(units))
            if u not in rest:
                rest.append(u)
        if not rest:
            return set_of(EMPTY)
        if len(rest) == 1:
            return rest[0]
        return mk("union", tuple(sorted(rest, key=lambda y: y.key)))

    return lift(leaf, *parts)


def diff(a, b):
    def leaf(x, y):
        x = set_of(x)
        y = set_of(y)
        if y.h == "set" and y.a[0] is EMPTY:
            return x
        if x.h == "set" and x.a[0] is EMPTY:
            return x
        if x is y:
            return set_of(EMPTY)
        if x.h == "diff":
            return diff(x.a[0], union([x.a[1], y]))
        known = shared(x, y)
        if known is not None:
            return set_of(tup([e for e in x.a[0].a[0] if e not in known]))
        return mk("diff", x, y)

    return lift(leaf, a, b)


def inter(a, b):
    def leaf(x, y):
        x = set_of(x)
        y = set_of(y)
        if x is y or x.h == "set" and x.a[0] is EMPTY:
            return x
        if y.h == "set" and y.a[0] is EMPTY:
            return y
        known = shared(x, y)
        if known is not None:
            return set_of(tup(known))
        return mk("inter", *sorted([x, y], key=lambda z: z.key))

    return lift(leaf, a, b)


def shared(x, y):
    """What two enumerated sets have in common, where every comparison is decided."""
    if not (x.h == "set" and y.h == "set" and x.a[0].h == "tup" and y.a[0].h == "tup"):
        return None
    out = []
    for p in x.a[0].a[0]:
        same = [eq(p, q) for q in y.a[0].a[0]]
        if any(z is TRUE for z in same):
            out.append(p)
        elif not all(z is FALSE for z in same):
            return None
    return out


# ------------------------------------------------------------------------------------------------
# printing


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x) for x in t) + ")"
        return repr(t)
    h, a = t.h, t.a
    if h == "const":
        return repr(a[0])
    if h == "var":
        return a[0]
    if h == "fv":
        return "%s_%d" % (a[1], a[0])
    if h == "bv":
        return "#%d" % a[0]
    if h == "field":
        return "%s.%s" % (show(a[0]), a[1])
    if h == "prop":
        return "%s.%s" % (show(a[0]), a[1])
    if h == "poly":
        out = []
        for m, k in a[0]:
            s = show(m)
            out.append(s if k == 1 else ("-" + s if k == -1 else "%r*%s" % (k, s)))
        if a[1]:
            out.append(repr(a[1]))
        return "(" + " + ".join(out) + ")"
    if h == "mono":
        return "*".join(show(x) for x in a[0])
    if h == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "not(%s)" % show(a[0])
        return "(if %s then %s else %s)" % (show(a[0]), show(a[1]), show(a[2]))
    if h == "le":
        return "%s<=0" % show(a[0])
    if h == "lt":
        return "%s<0" % show(a[0])
    if h == "eq0":
        return "%s==0" % show(a[0])
    if h == "eq":
        return "%s==%s" % (show(a[0]), show(a[1]))
    if h == "elem":
        return "%s[%s]" % (show(a[0]), show(a[1]))
    if h == "slice":
        return "%s[%s:%s]" % tuple(show(x) for x in a)
    if h == "comp":
        return "{%s for %s if %s}" % (show(a[2]), ",".join(show(s) for s in a[0]), show(a[1]))
    if h == "tup":
        return "(" + ", ".join(show(x) for x in a[0]) + ")"
    if h in ("class", "func", "builtin", "mod", "ext"):
        return str(a[0])
    return "%s(%s)" % (h, ", ".join(show(x) for x in a))

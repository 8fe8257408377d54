"""The linear program of the dial-a-ride problem, and the routes read from its solutions."""
from itertools import product

from jinete.algorithms.exacts.models import ThreeIndexLinearModel
from jinete.models import Fleet, Job, Position, Service, Trip, Vehicle


def _at(xs, *path):
    """An entry of nested tables, whether they are nested lists, nested dictionaries or one by tuples of indices."""
    if isinstance(xs, dict) and path in xs:
        return xs[path]
    for i in path:
        xs = xs[i]
    return xs


def _opened(xs):
    """A table with one level of nesting less."""
    out = []
    for x in xs.values() if isinstance(xs, dict) else xs:
        if isinstance(x, dict):
            out.extend(x.values())
        elif isinstance(x, (list, tuple)):
            out.extend(x)
        else:
            out.append(x)
    return out


def _flat(xs):
    return _opened(_opened(_opened(xs)))


class _Problem:
    """What is known of a linear program: what it minimises, and what must hold."""

    def __init__(self, name="NoName", sense=1):
        self.name = name
        self.sense = sense
        self.objective = None
        self.status = 1
        self.rules = []

    def extend(self, other):
        for c in other:
            self.rules.append(c)

    def __iadd__(self, other):
        what = other[0] if isinstance(other, tuple) else other
        if isinstance(what, bool):
            self.rules.append(what)
        else:
            self.objective = what
        return self

    def addConstraint(self, constraint, name=None):
        self.rules.append(constraint)

    def setObjective(self, objective):
        self.objective = objective

    def solve(self, solver=None):
        return self.status


class _Darp:
    """The three-index formulation of Cordeau (2006), as published, for trips 1..n of vehicles 0..m."""

    def __init__(self, vehicles, trips, model):
        self.vehicles, self.trips, self.n = vehicles, trips, len(trips)
        self.model = model
        self.last = 2 * len(trips) + 1
        self.all = range(2 * len(trips) + 2)

    def x(self, k, i, j):
        return _at(self.model._x, k, i, j)

    def u(self, k, i):
        return _at(self.model._u, k, i)

    def w(self, k, i):
        return _at(self.model._w, k, i)

    def place(self, i):
        if i == 0:
            return self.vehicles[0].origin_position
        if i == self.last:
            return self.vehicles[0].destination_position
        return self.trips[i - 1].origin_position if i <= self.n else self.trips[i - self.n - 1].destination_position

    def window(self, i):
        if i == 0 or i == self.last:
            return 0, 1440
        if i <= self.n:
            return self.trips[i - 1].origin_earliest, self.trips[i - 1].origin_latest
        return self.trips[i - self.n - 1].destination_earliest, self.trips[i - self.n - 1].destination_latest

    def load(self, i):
        if i == 0 or i == self.last:
            return 0
        return self.trips[i - 1].capacity if i <= self.n else -self.trips[i - self.n - 1].capacity

    def service(self, i):
        if i == 0 or i == self.last:
            return 0
        return self.trips[i - 1].origin_duration if i <= self.n else self.trips[i - self.n - 1].destination_duration

    def travel(self, i, j):
        return self.place(i).time_to(self.place(j))

    def objective(self):
        return sum(self.x(k, i, j) * (10000 if i == j else self.place(i).distance_to(self.place(j)))
                   for k in range(len(self.vehicles)) for i in self.all for j in self.all)

    def served_once(self):
        out = []
        for i in range(1, self.n + 1):
            out.append(sum(self.x(k, i, j) for k in range(len(self.vehicles)) for j in self.all) == 1)
            for k in range(len(self.vehicles)):
                out.append(sum(self.x(k, i, j) for j in self.all) == sum(self.x(k, self.n + i, j) for j in self.all))
        return out

    def connected(self):
        out = []
        for k in range(len(self.vehicles)):
            out.append(sum(self.x(k, 0, j) for j in self.all) == 1)
            out.append(sum(self.x(k, i, self.last) for i in self.all) == 1)
            for i in range(1, self.last):
                out.append(sum(self.x(k, j, i) for j in self.all) == sum(self.x(k, i, j) for j in self.all))
        return out

    def timed(self):
        out = []
        for k in range(len(self.vehicles)):
            for i in self.all:
                for j in self.all:
                    gap = max(0, self.window(i)[1] + self.service(i) + self.travel(i, j) - self.window(j)[0])
                    out.append(self.u(k, j) >= self.u(k, i) + self.service(i) + self.travel(i, j) - gap * (
                        1 - self.x(k, i, j)))
        return out

    def loaded(self):
        out = []
        for k in range(len(self.vehicles)):
            for i in self.all:
                for j in self.all:
                    most = self.vehicles[k].capacity + min(0, self.load(i))
                    out.append(self.w(k, j) >= self.w(k, i) + self.load(j) - most * (1 - self.x(k, i, j)))
        return out

    def bounded(self):
        out = []
        for k, v in enumerate(self.vehicles):
            out.append(self.u(k, self.last) - self.u(k, 0) <= v.timeout)
            for i in self.all:
                out.append(self.u(k, i) >= self.window(i)[0])
                out.append(self.u(k, i) <= self.window(i)[1])
                out.append(self.w(k, i) >= max(0, self.load(i)))
                out.append(self.w(k, i) <= v.capacity + min(0, self.load(i)))
            for i in range(1, self.n + 1):
                ride = self.u(k, self.n + i) - self.u(k, i) - self.service(i)
                out.append(ride >= self.travel(i, self.n + i))
                out.append(ride <= self.trips[i - 1].timeout)
        return out

    def rules(self):
        return self.served_once() + self.connected() + self.timed() + self.loaded() + self.bounded()


@unroll(600)
@model("pulp.LpProblem", "_Problem")
@cases("part", ["what is minimised", "what must hold"])
def law_one_trip(part, h: Service, k: Service, l: Service, n: float, r: float, z: float):
    p, v = Trip("p", k, l, capacity=n, timeout=r), Vehicle("v", h, timeout=z)
    model = ThreeIndexLinearModel(fleet=Fleet([v]), job=Job([p], None))
    got, want = model._problem, _Darp([v], [p], model)
    if part == "what is minimised":
        return (got.sense, got.objective), (1, want.objective())
    return all(got.rules), all(want.rules())


@unroll(600)
@model("pulp.LpProblem", "_Problem")
@cases("part", ["what is minimised", "what must hold"])
def law_two_vehicles(part, h: Service, g: Service, k: Service, l: Service, n: float, c: float, z: float):
    p, v, w = Trip("p", k, l, capacity=n), Vehicle("v", h), Vehicle("w", g, capacity=c, timeout=z)
    model = ThreeIndexLinearModel(fleet=Fleet([v, w]), job=Job([p], None))
    got, want = model._problem, _Darp([v, w], [p], model)
    if part == "what is minimised":
        return (got.sense, got.objective), (1, want.objective())
    return all(got.rules), all(want.rules())


@unroll(600)
@model("pulp.LpProblem", "_Problem")
@cases("part", ["what is minimised", "what must hold"])
def law_two_trips(part, h: Service, k: Service, l: Service, i: Service, j: Service, n: float, m: float, r: float):
    p, q, v = Trip("p", k, l, capacity=n), Trip("q", i, j, capacity=m, timeout=r), Vehicle("v", h)
    model = ThreeIndexLinearModel(fleet=Fleet([v]), job=Job([p, q], None))
    got, want = model._problem, _Darp([v], [p, q], model)
    if part == "what is minimised":
        return (got.sense, got.objective), (1, want.objective())
    return all(got.rules), all(want.rules())


def _kinds(fleet, job):
    model = ThreeIndexLinearModel(fleet=fleet, job=job)
    arcs, rest = _flat(model._x), _flat(model._u) + _flat(model._w)
    m, n = len(fleet.vehicles), 2 * len(job.trips) + 2
    return (len(arcs), len(rest), len({x.name for x in arcs + rest}),
            all((x.cat, x.lowBound, x.upBound) == ("Integer", 0, 1) for x in arcs),
            all(x.cat == "Continuous" and (x.lowBound is None or x.lowBound <= 0) and x.upBound is None for x in rest)
            ), (m * n * n, 2 * m * n, m * n * n + 2 * m * n, True, True)


@unroll(600)
@model("pulp.LpProblem", "_Problem")
def law_kinds_of_variables(h: Service, g: Service, k: Service, l: Service):
    return _kinds(Fleet([Vehicle("v", h), Vehicle("w", g)]), Job([Trip("p", k, l)], None))


@unroll(600)
@model("pulp.LpProblem", "_Problem")
def law_kinds_of_variables_of_more_trips(h: Service, k: Service, l: Service, i: Service, j: Service):
    return _kinds(Fleet([Vehicle("v", h)]), Job([Trip("p", k, l), Trip("q", i, j)], None))

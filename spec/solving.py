"""The routes read from a solution of the linear program."""
from jinete.algorithms import MilpAlgorithm
from jinete.algorithms.exacts.models import ThreeIndexLinearModel
from jinete.models import Fleet, Job, Position, Route, Service, Trip, Vehicle
from jvspec.linear import _at, _Problem
from jvspec.shapes import Line, picture


def _solved(model, paths, times):
    """Gives the variables values close to those of the given paths and times."""
    for k, path in enumerate(paths):
        nodes = range(len(times[k]))
        for i in nodes:
            for j in nodes:
                _at(model._x, k, i, j).varValue = 0.97 if (i, j) in zip(path[:-1], path[1:]) else 0.03
            _at(model._u, k, i).varValue = times[k][i]
            _at(model._w, k, i).varValue = 0.0


def _timed(line, *starts):
    for stop, start in zip(line.route.stops, starts):
        stop.starting_time = start
    return line.route


def _drawn(route):
    return picture(route), [s.starting_time for s in route.stops], route.vehicle.identifier


@unroll(400)
@model("pulp.LpProblem", "_Problem")
def law_one_trip(h: Service, k: Service, l: Service, n: float, t0: float, t1: float, t2: float, t3: float):
    if not 0 <= t0 < t1 < t2 < t3:
        return None, None
    p, v = Trip("p", k, l, capacity=n), Vehicle("v", h)
    model = ThreeIndexLinearModel(fleet=Fleet([v]), job=Job([p], None))
    _solved(model, [[0, 1, 2, 3]], [[t0, t1, t2, t3]])
    routes = model.solve()
    a = h.position
    return [_drawn(r) for r in routes], [
        _drawn(_timed(Line(v, [a, k.position, l.position, a], [(p, 1, 2)]), t0, t1, t2))]


@unroll(400)
@model("pulp.LpProblem", "_Problem")
@cases("path", [(0, 1, 2, 3, 4, 5), (0, 1, 2, 4, 3, 5), (0, 1, 3, 2, 4, 5), (0, 2, 4, 1, 3, 5), (0, 2, 1, 3, 4, 5)])
def law_two_trips(path, h: Service, k: Service, l: Service, i: Service, j: Service, n: float, t0: float, t1: float,
                  t2: float, t3: float, t4: float, t5: float):
    times = [t0, t1, t2, t3, t4, t5]
    if not all(x < y for x, y in zip([times[a] for a in path[:-1]], [times[a] for a in path[1:]])):
        return None, None
    p, q, v = Trip("p", k, l, capacity=n), Trip("q", i, j, capacity=n), Vehicle("v", h)
    model = ThreeIndexLinearModel(fleet=Fleet([v]), job=Job([p, q], None))
    _solved(model, [list(path)], [times])
    routes = model.solve()
    places = [h.position, k.position, i.position, l.position, j.position, h.position]
    return [_drawn(r) for r in routes], [_drawn(_timed(
        Line(v, [places[a] for a in path], [(p, path.index(1), path.index(3)), (q, path.index(2), path.index(4))]),
        *[times[a] for a in path[:-1]]))]


@unroll(400)
@model("pulp.LpProblem", "_Problem")
@cases("path", [(0, 1, 2, 3, 4, 5), (0, 1, 3, 2, 4, 5), (0, 2, 1, 4, 3, 5)])
def law_shared_places(path, h: Service, k: Service, l: Service, b: Position, c: Position, n: float, t0: float, t1: float,
                      t2: float, t3: float, t4: float, t5: float):
    """Two trips between the same two places, by one vehicle."""
    times = [t0, t1, t2, t3, t4, t5]
    if not all(x < y for x, y in zip([times[a] for a in path[:-1]], [times[a] for a in path[1:]])):
        return None, None
    p, q, v = Trip("p", k, l, capacity=n), Trip("q", k, l, timeout=n), Vehicle("v", h)
    model = ThreeIndexLinearModel(fleet=Fleet([v]), job=Job([p, q], None))
    _solved(model, [list(path)], [times])
    routes = model.solve()
    places = [h.position, k.position, k.position, l.position, l.position, h.position]
    return [_drawn(r) for r in routes], [_drawn(_timed(
        Line(v, [places[a] for a in path], [(p, path.index(1), path.index(3)), (q, path.index(2), path.index(4))]),
        *[times[a] for a in path[:-1]]))]


@unroll(400)
@model("pulp.LpProblem", "_Problem")
def law_two_vehicles(h: Service, g: Service, k: Service, l: Service, n: float, t0: float, t1: float, t2: float, t3: float,
                     s0: float, s1: float, s2: float, s3: float):
    if not (t0 < t1 < t2 < t3 and s0 < s1 < s2 < s3):
        return None, None
    p, v, w = Trip("p", k, l, capacity=n), Vehicle("v", h), Vehicle("w", g)
    model = ThreeIndexLinearModel(fleet=Fleet([v, w]), job=Job([p], None))
    _solved(model, [[0, 3], [0, 1, 2, 3]], [[s0, s1, s2, s3], [t0, t1, t2, t3]])
    routes = model.solve()
    a, b = h.position, g.position
    return [[_drawn(r) for r in routes if r.vehicle is x] for x in (v, w)] + [len(routes)], [
        [_drawn(_timed(Line(v, [a, a], []), s0))],
        [_drawn(_timed(Line(w, [b, k.position, l.position, b], [(p, 1, 2)]), t0, t1, t2))], 2]


class _Model:
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs

    def solve(self):
        return {Route(self.kwargs["vehicle"])}


@unroll(10)
def law_algorithm(h: Service, fleet: Fleet, job: Job, limit: int):
    v = Vehicle("v", h)
    planning = MilpAlgorithm(_Model, fleet=fleet, job=job, vehicle=v, limit=limit).optimize().planning
    return [picture(r) for r in planning.routes], [picture(Line(v, [h.position, h.position], []).route)]


@unroll(10)
def law_model_options(fleet: Fleet, job: Job, limit: int):
    m = MilpAlgorithm(_Model, fleet=fleet, job=job, limit=limit)._build_model()
    return (m.kwargs["fleet"], m.kwargs["job"], m.kwargs["limit"], len(m.kwargs)), (fleet, job, limit, 3)


@unroll(10)
def law_default_model(fleet: Fleet, job: Job):
    m = MilpAlgorithm(fleet=fleet, job=job)._build_model()
    return (isinstance(m, ThreeIndexLinearModel), m.fleet, m.job, m.solver), (True, fleet, job, None)

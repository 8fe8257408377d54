"""Local search moves on symbolic routes of a given shape: which are tried, and which are kept."""
from itertools import combinations

from jinete.algorithms import OneShiftLocalSearchStrategy, ReallocationLocalSearchStrategy, TwoOPTLocalSearchStrategy
from jinete.models import Objective, Planning, Position, Trip, Vehicle
from jvspec.shapes import Line, picture


class _Result:
    def __init__(self, objective, *routes):
        self.objective = objective
        self.planning = Planning(set(routes))


class _Score(Objective):
    """Any objective worth maximising: the worth of a route is left open."""

    def __init__(self):
        super().__init__("score", 1)

    def worth(self, route):
        return 0.0

    def _route_optimization_function(self, route):
        return (self.worth(route),)


def _one_shift(objective, v, positions, plans):
    """Neighbouring stops swapped one pair at a time, each swap kept only if it pays."""
    order = list(range(len(positions)))
    best = Line(v, positions, plans).route
    for i in range(1, len(positions) - 1):
        if any(x == order[i] and y == order[i + 1] for _, x, y in plans):
            continue
        swapped = order[:i] + [order[i + 1], order[i]] + order[i + 2:]
        candidate = Line(v, [positions[x] for x in swapped], [(q, swapped.index(x), swapped.index(y)) for q, x, y in plans]).route
        if candidate.feasible and objective.worth(candidate) > objective.worth(best):
            best, order = candidate, swapped
    return best


def _placed(self, route, trip, i, j):
    """A stand-in for the candidates: one, if it is feasible, with the trip in place."""
    n = len(route.stops)
    order = list(range(i + 1)) + [-1] + list(range(i + 1, j)) + [-2] + list(range(j, n))
    places = [trip.origin_position if k == -1 else trip.destination_position if k == -2 else route.stops[k].position
              for k in order]
    candidate = Line(route.vehicle, places, [(trip, order.index(-1), order.index(-2))]).route
    return [candidate] if candidate.feasible else []


def _reallocation(objective, *routes):
    """Every trip of a route tried at every place of another: the best move that pays, or none."""
    lines = [Line(v, positions, plans).route for v, positions, plans in routes]
    least = base = sum(objective.worth(line) for line in lines)
    best = list(lines)
    for here, (v, mine, plans) in enumerate(routes):
        for there, (w, others, _) in enumerate(routes):
            for q, x, y in plans if here != there else []:
                left = [k for k in range(len(mine)) if k != x and k != y]
                origin = Line(v, [mine[k] for k in left], [(p, left.index(a), left.index(b)) for p, a, b in plans if p is not q]).route
                rest = base - objective.worth(lines[here]) - objective.worth(lines[there]) + objective.worth(origin)
                for i, j in combinations(range(len(others)), 2):
                    destinations = _placed(None, lines[there], q, i, j)
                    if origin.feasible and len(destinations) > 0:
                        worth = rest + objective.worth(destinations[0])
                        if worth > least:
                            least = worth
                            best = [origin if k == here else destinations[0] if k == there else line
                                    for k, line in enumerate(lines)]
    return best


def _two_opt(objective, v, positions, plans):
    """Every stretch of inner stops turned round, one by one, keeping the best route seen."""
    n = len(positions)
    best = Line(v, positions, plans).route
    cost = objective.worth(best)
    for i, k in combinations(range(1, n - 1), 2):
        stretch = range(i, min(k + 2, n))
        if any(x in stretch and y in stretch for _, x, y in plans):
            continue
        turned = list(range(i)) + [x for x in reversed(stretch) if x < n - 1] + [x for x in range(k + 2, n - 1)] + [n - 1]
        candidate = Line(v, [positions[x] for x in turned], [(q, turned.index(x), turned.index(y)) for q, x, y in plans]).route
        if candidate.feasible and objective.worth(candidate) > cost:
            best, cost = candidate, objective.worth(candidate)
    return best


@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_three(v: Vehicle, a: Position, b: Position, c: Position):
    positions, plans = [a, b, c], []
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_four(v: Vehicle, a: Position, b: Position, c: Position, d: Position):
    positions, plans = [a, b, c, d], []
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_five(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position):
    positions, plans = [a, b, c, d, e], []
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_one_trip(v: Vehicle, a: Position, b: Position, c: Position, d: Position, p: Trip):
    positions, plans = [a, b, c, d], [(p, 1, 2)]
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_one_trip_apart(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, p: Trip):
    positions, plans = [a, b, c, d, e], [(p, 1, 3)]
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_two_trips(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, p: Trip, q: Trip):
    positions, plans = [a, b, c, d, e, f], [(p, 1, 3), (q, 2, 4)]
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_nested(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, p: Trip, q: Trip):
    positions, plans = [a, b, c, d, e, f], [(p, 1, 4), (q, 2, 3)]
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_shared_stops(v: Vehicle, a: Position, b: Position, c: Position, d: Position, p: Trip, q: Trip):
    positions, plans = [a, b, c, d], [(p, 1, 2), (q, 1, 2)]
    o = _Score()
    found = TwoOPTLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_two_opt(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_three(v: Vehicle, a: Position, b: Position, c: Position):
    positions, plans = [a, b, c], []
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_four(v: Vehicle, a: Position, b: Position, c: Position, d: Position):
    positions, plans = [a, b, c, d], []
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_five(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position):
    positions, plans = [a, b, c, d, e], []
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_one_trip(v: Vehicle, a: Position, b: Position, c: Position, d: Position, p: Trip):
    positions, plans = [a, b, c, d], [(p, 1, 2)]
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_one_trip_apart(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, p: Trip):
    positions, plans = [a, b, c, d, e], [(p, 1, 3)]
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_chained(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, p: Trip, q: Trip):
    positions, plans = [a, b, c, d, e], [(p, 1, 2), (q, 2, 3)]
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_shared_stops(v: Vehicle, a: Position, b: Position, c: Position, d: Position, p: Trip, q: Trip):
    positions, plans = [a, b, c, d], [(p, 1, 2), (q, 1, 2)]
    o = _Score()
    found = OneShiftLocalSearchStrategy(_Result(o, Line(v, positions, plans).route), with_copy=False).improve()
    return [picture(r) for r in found.planning.routes], [picture(_one_shift(o, v, positions, plans))]



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@model("InsertionStrategy.compute", "_placed")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration",
        "PlannedTrip.timeout")
def law_reallocation_one_place(a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, p: Trip):
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    here, there = Line(v, [a, b, c, d], [(p, 1, 2)]).route, Line(w, [e, f], []).route
    found = ReallocationLocalSearchStrategy(_Result(o, here, there), with_copy=False).improve()
    origin, destination = _reallocation(o, (v, [a, b, c, d], [(p, 1, 2)]), (w, [e, f], []))
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(origin)], [picture(destination)]]))



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@model("InsertionStrategy.compute", "_placed")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration",
        "PlannedTrip.timeout")
def law_reallocation_places(a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, g: Position, p: Trip):
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    here, there = Line(v, [a, b, c, d], [(p, 1, 2)]).route, Line(w, [e, f, g], []).route
    found = ReallocationLocalSearchStrategy(_Result(o, here, there), with_copy=False).improve()
    origin, destination = _reallocation(o, (v, [a, b, c, d], [(p, 1, 2)]), (w, [e, f, g], []))
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(origin)], [picture(destination)]]))



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@model("InsertionStrategy.compute", "_placed")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration",
        "PlannedTrip.timeout")
def law_reallocation_two_trips(a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, g: Position, h: Position, p: Trip, q: Trip):
    if p is q:
        return None, None
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    here, there = Line(v, [a, b, c, d, e, f], [(p, 1, 3), (q, 2, 4)]).route, Line(w, [g, h], []).route
    found = ReallocationLocalSearchStrategy(_Result(o, here, there), with_copy=False).improve()
    origin, destination = _reallocation(o, (v, [a, b, c, d, e, f], [(p, 1, 3), (q, 2, 4)]), (w, [g, h], []))
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(origin)], [picture(destination)]]))



@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_two_opt_two_routes(a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, g: Position, h: Position):
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    result = _Result(o, Line(v, [a, b, c, d], []).route, Line(w, [e, f, g, h], []).route)
    found = TwoOPTLocalSearchStrategy(result, with_copy=False).improve()
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(_two_opt(o, v, [a, b, c, d], []))], [picture(_two_opt(o, w, [e, f, g, h], []))]]))


@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_shift_two_routes(a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, g: Position, h: Position):
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    result = _Result(o, Line(v, [a, b, c, d], []).route, Line(w, [e, f, g, h], []).route)
    found = OneShiftLocalSearchStrategy(result, with_copy=False).improve()
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(_one_shift(o, v, [a, b, c, d], []))], [picture(_one_shift(o, w, [e, f, g, h], []))]]))


@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@model("InsertionStrategy.compute", "_placed")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration",
        "PlannedTrip.timeout")
def law_reallocation_second(a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, p: Trip):
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    here, there = Line(v, [a, b], []).route, Line(w, [c, d, e, f], [(p, 1, 2)]).route
    found = ReallocationLocalSearchStrategy(_Result(o, here, there), with_copy=False).improve()
    origin, destination = _reallocation(o, (v, [a, b], []), (w, [c, d, e, f], [(p, 1, 2)]))
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(origin)], [picture(destination)]]))


@unroll(10)
@inside("Objective.best", "Objective.optimization_function")
@model("InsertionStrategy.compute", "_placed")
@opaque("Route.feasible", "_Score.worth", "Stop.flush", "Route.flush", "PlannedTrip.duration",
        "PlannedTrip.timeout")
def law_reallocation_both(a: Position, b: Position, c: Position, d: Position, e: Position, p: Trip, q: Trip):
    if p is q:
        return None, None
    o = _Score()
    v, w = Vehicle("v", None), Vehicle("w", None)
    here, there = Line(v, [a, b, c], [(p, 1, 2)]).route, Line(w, [d, e], [(q, 0, 1)]).route
    found = ReallocationLocalSearchStrategy(_Result(o, here, there), with_copy=False).improve()
    origin, destination = _reallocation(o, (v, [a, b, c], [(p, 1, 2)]), (w, [d, e], [(q, 0, 1)]))
    return ([[picture(r) for r in found.planning.routes if r.vehicle is x] for x in (v, w)], (
        [[picture(origin)], [picture(destination)]]))

"""Insertion candidates on symbolic routes of a given shape: who sits where afterwards."""
from itertools import combinations
from typing import List

from jinete.algorithms import (
    InsertionStrategy,
    IntensiveInsertionStrategy,
    SamplingInsertionStrategy,
    TailInsertionStrategy,
)
from jinete.models import Position, Route, Trip, Vehicle
from jinete.utils import sample_index_pairs
from jvspec.shapes import Line, expected, picture


@cases("i, j", [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_candidate_between(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip, new: Trip):
    positions, plans = [a, b, c, d], [(q, 1, 2)]
    line = Line(v, positions, plans)
    found = InsertionStrategy(only_feasible=False).compute(line.route, new, i, j)
    return (len(found), picture(found[0]), found[0].vehicle), (1, expected(positions, plans, new, i, j), v)


@cases("i, j", [(0, 1), (0, 2), (1, 2), (1, 4), (2, 3), (2, 5), (3, 4), (4, 5)])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_candidate_among_nested(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position,
                               f: Position, q: Trip, w: Trip, new: Trip):
    positions, plans = [a, b, c, d, e, f], [(q, 1, 4), (w, 2, 3)]
    line = Line(v, positions, plans)
    found = InsertionStrategy(only_feasible=False).compute(line.route, new, i, j)
    return (len(found), picture(found[0]), found[0].vehicle), (1, expected(positions, plans, new, i, j), v)


@cases("i, j", [(0, 1), (1, 3), (2, 4), (3, 4)])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_candidate_among_overlapping(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position,
                                    f: Position, q: Trip, w: Trip, new: Trip):
    positions, plans = [a, b, c, d, e, f], [(q, 1, 3), (w, 2, 4)]
    line = Line(v, positions, plans)
    found = InsertionStrategy(only_feasible=False).compute(line.route, new, i, j)
    return (len(found), picture(found[0]), found[0].vehicle), (1, expected(positions, plans, new, i, j), v)


@cases("i, j", [(0, 1), (0, 3), (1, 2), (2, 3)])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_candidate_leaves_the_route(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip, new: Trip):
    line = Line(v, [a, b, c, d], [(q, 1, 2)])
    before = line.picture()
    InsertionStrategy(only_feasible=False).compute(line.route, new, i, j)
    return line.picture(), before


@cases("i, j", [(0, 1), (0, 2), (1, 2)])
@unroll(8)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_one_candidate_per_trip(v: Vehicle, a: Position, b: Position, c: Position, p: Trip, q: Trip):
    found = InsertionStrategy(only_feasible=False).compute(Line(v, [a, b, c], []).route, [p, q], i, j)
    return [picture(r) for r in found], [expected([a, b, c], [], p, i, j), expected([a, b, c], [], q, i, j)]


@cases("only", [True, False])
@opaque("Route.feasible", "Route.clone", "Route.append_planned_trip", "Route.insert_stop", "Route.insert_stop_at",
        "Route.remove_stop_at", "Route.flush", "Stop.flush", "RouteCloner.clone", "RouteCloner.idx", "RouteCloner.mapper")
def law_only_feasible_candidates(route: Route, trips: List[Trip], i: int, j: int):
    everything = InsertionStrategy(only_feasible=False).compute(route, trips, i, j)
    found = InsertionStrategy(only_feasible=only).compute(route, trips, i, j)
    return found, [r for r in everything if not only or r.feasible]


@cases("only", [True, False])
@opaque("Route.feasible", "Route.clone", "Route.append_planned_trip", "Route.insert_stop", "Route.insert_stop_at",
        "Route.remove_stop_at", "Route.flush", "Stop.flush", "RouteCloner.clone", "RouteCloner.idx", "RouteCloner.mapper")
def law_only_feasible_on_request(route: Route, trips: List[Trip], i: int, j: int):
    everything = InsertionStrategy(only_feasible=False).compute(route, trips, i, j)
    found = InsertionStrategy(only_feasible=not only).compute(route, trips, i, j, only_feasible=only)
    return found, [r for r in everything if not only or r.feasible]


@cases("n", [0, 1, 2])
@opaque("=InsertionStrategy.compute")
def law_options_reach_the_candidates(route: Route, trip: Trip, only: bool):
    strategy = [TailInsertionStrategy, IntensiveInsertionStrategy, SamplingInsertionStrategy][n](only_feasible=only)
    return strategy.only_feasible, only


def law_only_feasible_by_default():
    return InsertionStrategy().only_feasible, True


@cases("n", [2, 3])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_intensive(v: Vehicle, a: Position, b: Position, c: Position, d: Position, new: Trip):
    positions = [a, b, c, d][:n]
    found = IntensiveInsertionStrategy(only_feasible=False).compute(Line(v, positions, []).route, new)
    return [picture(r)[0] for r in found], [
        expected(positions, [], new, i, j)[0] for i in range(n) for j in range(i + 1, n)]


@cases("n", [2, 3, 4])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_tail(v: Vehicle, a: Position, b: Position, c: Position, d: Position, new: Trip):
    positions = [a, b, c, d][:n]
    found = TailInsertionStrategy(only_feasible=False).compute(Line(v, positions, []).route, new)
    return [picture(r)[0] for r in found], [expected(positions, [], new, n - 2, n - 1)[0]]


@cases("n", [2, 3])
@unroll(10)
@opaque("Route.feasible", "Stop.flush", "Route.flush", "PlannedTrip.duration", "PlannedTrip.timeout")
def law_sampling_all(v: Vehicle, a: Position, b: Position, c: Position, d: Position, new: Trip):
    positions = [a, b, c, d][:n]
    found = SamplingInsertionStrategy(only_feasible=False).compute(Line(v, positions, []).route, new, 6)
    return [picture(r)[0] for r in found], [
        expected(positions, [], new, i, j)[0] for i in range(n) for j in range(i + 1, n)]


@opaque("=InsertionStrategy.compute")
def law_intensive_any_length(route: Route, trip: Trip, only: bool):
    strategy = IntensiveInsertionStrategy()
    return strategy.compute(route, trip, only_feasible=only), [
        r for i, j in combinations(range(len(route.stops)), 2) for r in InsertionStrategy.compute(
            strategy, route, trip, i, j, only_feasible=only)]


@opaque("=InsertionStrategy.compute")
def law_tail_any_length(route: Route, trip: Trip, only: bool):
    strategy = TailInsertionStrategy()
    return strategy.compute(route, trip, only_feasible=only), InsertionStrategy.compute(
        strategy, route, trip, max(len(route.stops) - 2, 0), max(len(route.stops) - 1, 0), only_feasible=only)


@opaque("=InsertionStrategy.compute")
def law_sampling_any_length(route: Route, trip: Trip, only: bool, count: int):
    strategy = SamplingInsertionStrategy()
    return strategy.compute(route, trip, count, only_feasible=only), [
        r for i, j in sample_index_pairs(len(route.stops), count, strategy.random) for r in InsertionStrategy.compute(
            strategy, route, trip, i, j, only_feasible=only)]

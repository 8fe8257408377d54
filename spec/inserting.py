"""Insertion algorithms on small symbolic jobs: which trips are pending, what is offered, what is adopted."""
from random import Random

from jinete.algorithms import (
    BestStatelessInsertionIterator,
    InsertionAlgorithm,
    InsertionIterator,
    InsertionStrategy,
    RankingInsertionIterator,
    StatelessInsertionIterator,
)
from jinete.models import Fleet, Job, Objective, OptimizationDirection, Position, Route, RouteCriterion, Service, Trip, Vehicle
from jvspec.shapes import Line, picture


class _Offers(InsertionIterator):
    """Offers the given routes one after another, noting what is pending before each."""

    def __init__(self, offers, seen, **kwargs):
        super().__init__(**kwargs)
        self.offers = offers
        self.seen = seen

    def __next__(self):
        self.seen.append(set(self.pending_trips))
        if len(self.offers) == 0:
            raise StopIteration
        return self.offers.pop(0)


def _started(initial, *routes):
    if len(routes) == 0:
        return None
    return initial


class _Initial:
    def __init__(self, *routes):
        self.routes = set(routes)


@unroll(10)
@opaque("Route.feasible")
def law_pending_from_scratch(h: Service, k: Service, l: Service, n: float):
    a, p, q, z = h.position, Trip("p", k, l, capacity=n), Trip("q", k, l, capacity=n), Trip("z", l, k, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    seen = []
    planning = InsertionAlgorithm(
        _Offers, None, offers=[], seen=seen, fleet=Fleet({v, w}), job=Job({p, q}, None)).optimize().planning
    return (seen, [[picture(r) for r in planning.routes if r.vehicle is x] for x in (v, w)], len(planning.routes)), (
        [{p, q}], [[picture(Line(x, [a, a], []).route)] for x in (v, w)], 2)


@unroll(10)
@opaque("Route.feasible")
def law_pending_from_a_result(h: Service, b: Position, c: Position, k: Service, l: Service, n: float):
    a, p, q, z = h.position, Trip("p", k, l, capacity=n), Trip("q", k, l, capacity=n), Trip("z", l, k, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    seen = []
    here, there = Line(v, [a, b, c, a], [(p, 1, 2)]).route, Line(w, [a, a], []).route
    planning = InsertionAlgorithm(_Offers, _Initial(here, there), offers=[], seen=seen, fleet=Fleet({v, w}),
                                  job=Job({p, q, z}, None)).optimize().planning
    return (seen, [[picture(r) for r in planning.routes if r.vehicle is x] for x in (v, w)], len(planning.routes),
            [r is x for r in planning.routes for x in (here, there)]), (
        [{q, z}], [[picture(here)], [picture(there)]], 2, [False] * 4)


@unroll(10)
@opaque("Route.feasible")
def law_adopts_until_infeasible(h: Service, b: Position, c: Position, d: Position, k: Service, l: Service, n: float):
    a, p, q, z = h.position, Trip("p", k, l, capacity=n), Trip("q", k, l, capacity=n), Trip("z", l, k, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    seen = []
    first, second = Line(v, [a, b, c, a], [(p, 1, 2)]).route, Line(w, [a, c, d, a], [(q, 1, 2)]).route
    planning = InsertionAlgorithm(
        _Offers, None, offers=[first, second], seen=seen, fleet=Fleet({v, w}), job=Job({p, q}, None)).optimize().planning
    one = first.feasible
    both = one and second.feasible
    return (seen, [[picture(r) for r in planning.routes if r.vehicle is x] for x in (v, w)]), (
        [{p, q}, {q}, set()] if both else [{p, q}, {q}] if one else [{p, q}],
        [[picture(first if one else Line(v, [a, a], []).route)], [picture(second if both else Line(w, [a, a], []).route)]])


@unroll(10)
@opaque("Route.feasible")
def law_adopts_longer_routes(h: Service, b: Position, c: Position, d: Position, k: Service, l: Service, n: float):
    a, p, q, z = h.position, Trip("p", k, l, capacity=n), Trip("q", k, l, capacity=n), Trip("z", l, k, capacity=n)
    v = Vehicle("v", h)
    seen = []
    first = Line(v, [a, b, c, a], [(p, 1, 2)]).route
    second = Line(v, [a, b, c, d, a], [(p, 1, 2), (q, 1, 3), (z, 2, 3)]).route
    planning = InsertionAlgorithm(
        _Offers, None, offers=[first, second], seen=seen, fleet=Fleet({v}), job=Job({p, q, z}, None)).optimize().planning
    one = first.feasible
    both = one and second.feasible
    return (seen, [picture(r) for r in planning.routes]), (
        [{p, q, z}, {q, z}, set()] if both else [{p, q, z}, {q, z}] if one else [{p, q, z}],
        [picture(second if both else first if one else Line(v, [a, a], []).route)])


class _Order(RouteCriterion):
    """Any criterion: how good a route looks is left open."""

    def __init__(self, *args, **kwargs):
        super().__init__("order", OptimizationDirection.MINIMIZATION)

    def scoring(self, route) -> float:
        return 0.0

    def prefers(self, one, other):
        return self.scoring(one) < self.scoring(other)


class _Wish(_Order):
    def __init__(self, *args, **kwargs):
        RouteCriterion.__init__(self, "wish", OptimizationDirection.MAXIMIZATION)

    def prefers(self, one, other):
        return self.scoring(one) > self.scoring(other)


def _behind(route, trip):
    """The route with one more trip, served last."""
    stops = list(route.stops)
    plans = [(q.trip, stops.index(q.pickup), stops.index(q.delivery)) for q in route.planned_trips]
    places = [s.position for s in stops[:-1]] + [trip.origin_position, trip.destination_position, stops[-1].position]
    return Line(route.vehicle, places, plans + [(trip, len(stops) - 1, len(stops))]).route


class _Behind(InsertionStrategy):
    def __init__(self, *args, **kwargs):
        super().__init__()

    def compute(self, route, trips, *args, **kwargs):
        return [_behind(route, trip) for trip in ([trips] if isinstance(trips, Trip) else trips)]


def _greedy(order, routes, trips):
    """The best extension of any route by any pending trip, again and again, until it is infeasible."""
    for _ in range(len(trips)):
        best = None
        for route in routes:
            for trip in trips:
                candidate = _behind(route, trip)
                if best is None or order.prefers(candidate, best[0]):
                    best = (candidate, route, trip)
        if best is None or not best[0].feasible:
            break
        routes = [best[0] if x is best[1] else x for x in routes]
        trips = [x for x in trips if x is not best[2]]
    return routes


@unroll(10)
@opaque("Route.feasible", "_Order.scoring")
def law_ranking_one_vehicle(h: Service, k: Service, l: Service, n: float):
    a, p, q = h.position, Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n)
    v = Vehicle("v", h)
    planning = InsertionAlgorithm(RankingInsertionIterator, None, fleet=Fleet({v}), job=Job({p, q}, None),
                                  strategy_cls=_Behind, criterion_cls=_Order).optimize().planning
    return [picture(r) for r in planning.routes], [
        picture(r) for r in _greedy(_Order(), [Line(v, [a, a], []).route], [p, q])]


@unroll(10)
@opaque("Route.feasible", "_Order.scoring")
def law_ranking_two_vehicles(h: Service, b: Position, c: Position, k: Service, l: Service, n: float):
    a, p, x, y = h.position, Trip("p", k, l, capacity=n), Trip("x", k, l, capacity=n), Trip("y", k, l, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    here, there = Line(v, [a, b, c, a], [(x, 1, 2)]).route, Line(w, [a, c, b, a], [(y, 1, 2)]).route
    planning = InsertionAlgorithm(RankingInsertionIterator, _Initial(here, there), fleet=Fleet({v, w}),
                                  job=Job({p, x, y}, None), strategy_cls=_Behind, criterion_cls=_Order).optimize().planning
    return [[picture(r) for r in planning.routes if r.vehicle is z] for z in (v, w)], [
        [picture(r)] for r in _greedy(_Order(), [here, there], [p])]


@remembering
@unroll(10)
@opaque("Route.feasible", "_Order.scoring")
def law_stateless(h: Service, k: Service, l: Service, n: float):
    a, p, q = h.position, Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n)
    v = Vehicle("v", h)
    planning = InsertionAlgorithm(StatelessInsertionIterator, None, fleet=Fleet({v}), job=Job({p, q}, None),
                                  strategy_cls=_Behind, criterion_cls=_Order).optimize().planning
    first = _behind(Line(v, [a, a], []).route, p)
    second = _behind(first, q)
    return [picture(r) for r in planning.routes], [picture(
        second if first.feasible and second.feasible else first if first.feasible else Line(v, [a, a], []).route)]


@remembering
@unroll(10)
@opaque("Route.feasible", "_Order.scoring")
def law_best_stateless(h: Service, k: Service, l: Service, n: float):
    a, p, q = h.position, Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n)
    v = Vehicle("v", h)
    planning = InsertionAlgorithm(BestStatelessInsertionIterator, None, fleet=Fleet({v}), job=Job({p, q}, None),
                                  strategy_cls=_Behind, criterion_cls=_Wish).optimize().planning
    return [picture(r) for r in planning.routes], [
        picture(r) for r in _greedy(_Wish(), [Line(v, [a, a], []).route], [p, q])]


class _Fixed(InsertionStrategy):
    """Offers the same routes whatever is asked for."""

    def __init__(self, offers, **kwargs):
        super().__init__()
        self.offers = offers

    def compute(self, route, trips, *args, **kwargs):
        return [r for r in self.offers if r.vehicle is route.vehicle]


def _shortlist(order, size, *groups):
    """The best few of all the groups."""
    best = []
    for group in groups:
        for route in group:
            best.append(route)
    return order.direction.nbest(size, best, key=order.scoring)


@unroll(10)
@opaque("Route.feasible", "_Order.scoring")
def law_ranking_shortlist(h: Service, b: Position, c: Position, k: Service, l: Service, seed: int, n: float):
    a, p, q, x, y = h.position, Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n), Trip("x", k, l, capacity=n), Trip("y", k, l, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    here, there = Line(v, [a, b, c, a], [(x, 1, 2)]).route, Line(w, [a, c, b, a], [(y, 1, 2)]).route
    ones = [_behind(here, p), _behind(here, q)]
    others = [_behind(there, p), _behind(there, q)]
    found = next(RankingInsertionIterator(fleet=Fleet({v, w}), job=Job({p, q, x, y}, None), routes={here, there}, randomized_size=2, seed=seed,
                                      strategy_cls=_Fixed, criterion_cls=_Order, offers=ones + others))
    return found, Random(seed).choice(_shortlist(_Order(), 2, ones, others))


class _Table(RouteCriterion):
    """Marks by vehicle and by the trip served last."""

    def __init__(self, marks, **kwargs):
        super().__init__("table", OptimizationDirection.MINIMIZATION)
        self.marks = marks

    def scoring(self, route) -> float:
        last = route.stops[-2]
        for vehicle, trip, mark in self.marks:
            if route.vehicle is vehicle and any(q.trip is trip for q in last.delivery_planned_trips):
                return mark

    def prefers(self, one, other):
        return self.scoring(one) < self.scoring(other)


@unroll(12)
@opaque("Route.feasible")
@cases("m", [(1, 2, 3, 4), (1, 2, 4, 3), (2, 4, 3, 1), (1, 3, 2, 4), (1, 4, 2, 3), (4, 1, 3, 2), (2, 1, 4, 3), (3, 2, 4, 1), (1, 4, 3, 2), (3, 2, 1, 4)])
def law_ranking_two_vehicles_two_trips(h: Service, b: Position, c: Position, k: Service, l: Service, m, n: float):
    a, p, q, x, y = h.position, Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n), Trip("x", k, l, capacity=n), Trip("y", k, l, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    here, there = Line(v, [a, b, c, a], [(x, 1, 2)]).route, Line(w, [a, c, b, a], [(y, 1, 2)]).route
    marks = [(v, p, m[0]), (v, q, m[1]), (w, p, m[2]), (w, q, m[3])]
    planning = InsertionAlgorithm(RankingInsertionIterator, _Initial(here, there), fleet=Fleet({v, w}),
                                  job=Job({p, q, x, y}, None), strategy_cls=_Behind, criterion_cls=_Table, marks=marks,
                                  ).optimize().planning
    return [[picture(r) for r in planning.routes if r.vehicle is z] for z in (v, w)], [
        [picture(r)] for r in _greedy(_Table(marks), [here, there], [p, q])]


class _Counts(InsertionStrategy):
    """Offers nothing, noting how many trips it is asked about."""

    def __init__(self, seen, **kwargs):
        super().__init__()
        self.seen = seen

    def compute(self, route, trips, *args, **kwargs):
        self.seen.append(len(set(trips)))
        return []


@unroll(10)
@opaque("Route.feasible")
@cases("size, n", [(1, 1), (2, 2), (3, 3), (7, 3), (None, 3)])
def law_neighborhood(h: Service, k: Service, l: Service, size, n, n: float):
    p, q, z = Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n), Trip("z", k, k, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    seen = []
    planning = InsertionAlgorithm(RankingInsertionIterator, None, fleet=Fleet({v, w}), job=Job({p, q, z}, None), strategy_cls=_Counts,
                                  criterion_cls=_Order, seen=seen, neighborhood_max_size=size).optimize().planning
    return (max(seen), [picture(r) for x in (v, w) for r in planning.routes if r.vehicle is x]), (
        n, [picture(Route(x)) for x in (v, w)])


@unroll(10)
@opaque("Route.feasible", "_Order.scoring")
@cases("n", [0, 1])
def law_ranking_one_side(h: Service, b: Position, c: Position, k: Service, l: Service, n, n: float):
    a, p, x, y = h.position, Trip("p", k, l, capacity=n), Trip("x", k, l, capacity=n), Trip("y", k, l, capacity=n)
    v, w = Vehicle("v", h), Vehicle("w", h)
    here, there = Line(v, [a, b, c, a], [(x, 1, 2)]).route, Line(w, [a, c, b, a], [(y, 1, 2)]).route
    offer = [_behind(here, p), _behind(there, p)][n]
    found = next(RankingInsertionIterator(fleet=Fleet({v, w}), job=Job({p, x, y}, None), routes={here, there}, strategy_cls=_Fixed,
                                          criterion_cls=_Order, offers=[offer]))
    return found, offer

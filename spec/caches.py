"""Figures asked for before a change of the plan are the figures of the changed plan afterwards."""
from jinete.algorithms import OneShiftLocalSearchStrategy, TwoOPTLocalSearchStrategy
from jinete.models import PlannedTrip, Position, Service, Stop, Trip, Vehicle
from jvspec.improving import _one_shift, _Result, _Score, _two_opt
from jvspec.shapes import Line


class _Folded:
    """Figures of a stop that depend on the trips served there alone."""

    def earliest(self, pickups, deliveries):
        return 0.0

    def latest(self, pickups, deliveries):
        return 0.0

    def load_time(self, pickups, deliveries):
        return 0.0

    def feasible(self, times):
        return True

    def served(self, trip, times):
        return True

    def reached(self, load, time):
        return True


def _feasible(route):
    return _Folded().feasible([s.arrival_time for s in route.stops])


def _served(planned_trip):
    return _Folded().served(planned_trip.trip, [planned_trip.pickup_time, planned_trip.delivery_time])


def _reached(stop):
    return _Folded().reached(stop.capacity, stop.starting_time)


def _earliest(stop):
    return _Folded().earliest({q.trip for q in stop.pickup_planned_trips}, {q.trip for q in stop.delivery_planned_trips})


def _latest(stop):
    return _Folded().latest({q.trip for q in stop.pickup_planned_trips}, {q.trip for q in stop.delivery_planned_trips})


def _load_time(stop):
    return _Folded().load_time({q.trip for q in stop.pickup_planned_trips}, {q.trip for q in stop.delivery_planned_trips})


def figures(r):
    """Everything a route, its stops and its planned trips remember, and what follows from it."""
    return (
        [(s.arrival_time, s.departure_time, s.starting_time, s.capacity, s.previous_capacity, s.feasible, s.distance, s.waiting_time,
          s.transit_time, s.earliest, s.latest, s.load_time, s.previous_position, len(s.all_previous)) for s in r.stops],
        [(q.feasible, q.duration, q.waiting_time, q.transit_time, q.load_time, q.pickup_time, q.delivery_time)
         for s in r.stops for q in s.delivery_planned_trips],
        r.feasible, r.duration, r.distance, r.waiting_time, r.transit_time, r.first_departure_time, r.last_departure_time,
        r.current_arrival_time, r.current_departure_time, r.feasible_stops, r.feasible_planned_trips, r.loaded, r.loaded_trips_count,
        r.last_position, r.current_position, len(r.stops))


def _at_stops(r):
    return [(s.arrival_time, s.departure_time, s.starting_time, s.capacity, s.feasible) for s in r.stops], r.feasible, r.duration


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
@cases("i", [1, 2, 3])
def law_insert_stop_at(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, q: Trip, i):
    line = Line(v, [a, b, c, d], [(q, 0, 2)])
    figures(line.route)
    line.route.insert_stop_at(i, Stop(v, e, line.stops[i - 1]))
    places = [a, b, c, d]
    places.insert(i, e)
    return figures(line.route), figures(Line(v, places, [(q, 0, 2 if i > 2 else 3)]).route)


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
def law_insert_stop(v: Vehicle, a: Position, b: Position, c: Position, e: Position, q: Trip):
    line = Line(v, [a, b, c], [(q, 0, 2)])
    figures(line.route)
    line.route.insert_stop(Stop(v, e, line.stops[0]))
    return figures(line.route), figures(Line(v, [a, e, b, c], [(q, 0, 3)]).route)


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
@cases("i", [1, 2])
def law_remove_stop_at(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip, i):
    line = Line(v, [a, b, c, d], [(q, 0, 3)])
    figures(line.route)
    line.route.remove_stop_at(i)
    return figures(line.route), figures(Line(v, [a, c, d] if i == 1 else [a, b, d], [(q, 0, 2)]).route)


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@model("Route.feasible", "_feasible")
@model("PlannedTrip.feasible", "_served")
@model("Stop.feasible", "_reached")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time", "_Folded.feasible", "_Folded.served", "_Folded.reached")
def law_append_planned_trip(v: Vehicle, a: Position, b: Position, q: Trip, u: Trip):
    line = Line(v, [a, q.origin_position, q.destination_position, b], [(q, 1, 2)])
    figures(line.route)
    pickup = Stop(v, u.origin_position, line.stops[0])
    delivery = Stop(v, u.destination_position, line.stops[2])
    line.route.append_planned_trip(PlannedTrip(v, u, pickup, delivery))
    return figures(line.route), figures(
        Line(v, [a, u.origin_position, q.origin_position, q.destination_position, u.destination_position, b],
             [(q, 2, 3), (u, 1, 4)]).route)


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
def law_remove_trip(v: Vehicle, a: Position, b: Position, k: Service, l: Service):
    q, u = Trip("q", k, l), Trip("u", l, k)
    line = Line(v, [a, u.origin_position, q.origin_position, q.destination_position, u.destination_position, b],
                [(q, 2, 3), (u, 1, 4)])
    figures(line.route)
    line.route.remove_trip(u)
    return figures(line.route), figures(Line(v, [a, q.origin_position, q.destination_position, b], [(q, 1, 2)]).route)


def _own(s):
    return s.arrival_time, s.departure_time, s.starting_time, s.capacity, s.feasible


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
@cases("i", [0, 1, 2])
def law_explicit_start(v: Vehicle, a: Position, b: Position, c: Position, q: Trip, x: float, i):
    line, other = Line(v, [a, b, c], [(q, 0, 2)]), Line(v, [a, b, c], [(q, 0, 2)])
    figures(line.route)
    line.stops[i].starting_time = x
    other.stops[i].starting_time = x
    return _own(line.stops[i]), _own(other.stops[i])


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
@cases("i", [0, 1, 2])
def law_explicit_start_and_flush(v: Vehicle, a: Position, b: Position, c: Position, q: Trip, x: float, i):
    line, other = Line(v, [a, b, c], [(q, 0, 2)]), Line(v, [a, b, c], [(q, 0, 2)])
    figures(line.route)
    line.stops[i].starting_time = x
    line.route.flush()
    other.stops[i].starting_time = x
    return figures(line.route), figures(other.route)


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
def law_serving_more(v: Vehicle, a: Position, b: Position, c: Position, q: Trip, u: Trip):
    line = Line(v, [a, b, c], [(q, 0, 2)])
    figures(line.route)
    PlannedTrip(v, u, line.stops[1], line.stops[2])
    line.route.flush()
    return _at_stops(line.route), _at_stops(Line(v, [a, b, c], [(q, 0, 2), (u, 1, 2)]).route)


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time")
@cases("n", [0, 1])
def law_serving_more_here(v: Vehicle, a: Position, b: Position, c: Position, q: Trip, u: Trip, n):
    line, other = Line(v, [a, b, c], [(q, 0, 2)]), Line(v, [a, b, c], [(q, 0, 2)])
    figures(line.route)
    for x in (line, other):
        p = PlannedTrip(v, u)
        if n == 0:
            p.pickup = x.stops[1]
            x.stops[1].append_pickup(p)
        else:
            p.delivery = x.stops[1]
            x.stops[1].append_delivery(p)
    return _own(line.stops[1]), _own(other.stops[1])


def _look(r):
    return [s.position for s in r.stops], [s.arrival_time for s in r.stops], r.feasible, r.duration


@remembering
@unroll(10)
@transparent
@model("Stop.earliest", "_earliest")
@model("Stop.latest", "_latest")
@model("Stop.load_time", "_load_time")
@model("Route.feasible", "_feasible")
@opaque("_Folded.earliest", "_Folded.latest", "_Folded.load_time", "_Folded.feasible", "_Score.worth")
@cases("search, n", [("one shift", 3), ("one shift", 4), ("two opt", 4)])
def law_rewired(v: Vehicle, a: Position, b: Position, c: Position, d: Position, search, n):
    places = [a, b, c, d][:n]
    line = Line(v, places, [])
    figures(line.route)
    if search == "one shift":
        found = OneShiftLocalSearchStrategy(_Result(_Score(), line.route), with_copy=False).improve()
        expected = _one_shift(_Score(), v, places, [])
    else:
        found = TwoOPTLocalSearchStrategy(_Result(_Score(), line.route), with_copy=False).improve()
        expected = _two_opt(_Score(), v, places, [])
    return [_look(r) for r in found.planning.routes], [_look(expected)]

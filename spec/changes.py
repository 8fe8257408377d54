"""Planning, removing and copying on symbolic routes of a given shape."""
from jinete.models import PlannedTrip, Position, Route, RouteCloner, Stop, Trip, Vehicle
from jvspec.shapes import Line, expected, picture


@cases("i, j", [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])
@unroll(10)
@opaque("Stop.flush", "Route.flush")
def law_plan(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip, new: Trip):
    positions, plans = [a, b, c, d], [(q, 1, 2)]
    line = Line(v, positions, plans)
    pickup = Stop(v, new.origin_position, line.stops[i])
    delivery = Stop(v, new.destination_position, pickup if i + 1 == j else line.stops[j - 1])
    line.route.append_planned_trip(PlannedTrip(v, new, pickup, delivery))
    return picture(line.route), expected(positions, plans, new, i, j)


@cases("i, j", [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])
@unroll(10)
@opaque("Stop.flush", "Route.flush")
def law_plan_and_remove(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip, new: Trip):
    if q == new:
        return None, None
    line = Line(v, [a, b, c, d], [(q, 1, 2)])
    before = line.picture()
    pickup = Stop(v, new.origin_position, line.stops[i])
    delivery = Stop(v, new.destination_position, pickup if i + 1 == j else line.stops[j - 1])
    line.route.append_planned_trip(PlannedTrip(v, new, pickup, delivery))
    line.route.remove_trip(new)
    return line.picture(), before


@cases("i, j, k, l", [(1, 2, 3, 4), (1, 3, 2, 4), (1, 4, 2, 3), (2, 3, 1, 4), (3, 4, 1, 2), (2, 4, 1, 3)])
@unroll(10)
@opaque("Stop.flush", "Route.flush")
def law_remove(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, q: Trip,
               old: Trip):
    if q == old:
        return None, None
    line = Line(v, [a, b, c, d, e, f], [(q, i, j), (old, k, l)])
    line.route.remove_trip(old)
    rest = [x for n, x in enumerate([a, b, c, d, e, f]) if n != k and n != l]
    first, second = i - len([x for x in (k, l) if x < i]), j - len([x for x in (k, l) if x < j])
    return picture(line.route), picture(Line(v, rest, [(q, first, second)]).route)


@unroll(10)
@opaque("Stop.flush", "Route.flush")
def law_plan_from_the_start(v: Vehicle, a: Position, b: Position, c: Position, new: Trip):
    line = Line(v, [a, b, c], [])
    pickup = Stop(v, a, None)
    delivery = Stop(v, new.destination_position, pickup)
    line.route.append_planned_trip(PlannedTrip(v, new, pickup, delivery))
    return picture(line.route), picture(Line(v, [a, new.destination_position, b, c], [(new, 0, 1)]).route)


@cases("n", [0, 1, 2, 3, 4, 5, 6])
@unroll(10)
def law_clone(v: Vehicle, a: Position, b: Position, c: Position, d: Position, e: Position, f: Position, q: Trip,
              w: Trip):
    plans = [(q, 1, 3), (w, 2, 4)]
    line = Line(v, [a, b, c, d, e, f], plans)
    before = line.picture()
    copy = line.route.clone(n)
    return (picture(copy), copy.vehicle, copy is line.route, line.picture()), (
        picture(line.route), v, False, before)


@cases("n", [0, 1, 2, 3, 4])
@unroll(10)
def law_cloner(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip):
    line = Line(v, [a, b, c, d], [(q, 1, 2)])
    copy = RouteCloner(line.route, n).clone()
    return (picture(copy), copy.vehicle, copy is line.route), (picture(line.route), v, False)


@unroll(10)
def law_clone_shares_nothing(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip):
    line = Line(v, [a, b, c, d], [(q, 1, 2)])
    copy = line.route.clone()
    return ([x is y for x, y in zip(copy.stops, line.stops)], [x is y for x, y in zip(
        copy.planned_trips, line.planned)]), ([False, False, False, False], [False])


@unroll(10)
def law_clone_repeats_explicit_starts(v: Vehicle, a: Position, b: Position, c: Position, d: Position, q: Trip, start):
    line = Line(v, [a, b, c, d], [(q, 1, 2)])
    line.stops[1].starting_time = start
    copy = line.route.clone()
    return [s.starting_time for s in copy.stops], [s.starting_time for s in line.route.stops]

"""How routes are put together and taken apart."""
from jinete.models import PlannedTrip, Position, Route as _Route, Stop, Trip, Vehicle


def law_route_of_vehicle(vehicle: Vehicle):
    stops = _Route(vehicle).stops
    return (len(stops), stops[0].position, stops[-1].position, stops[0].previous, stops[-1].previous,
            stops[0].vehicle, stops[-1].vehicle), (
        2, vehicle.origin_position, vehicle.destination_position, None, stops[0], vehicle, vehicle)


def law_route_is_empty(vehicle: Vehicle):
    route = _Route(vehicle)
    return (list(route.pickups), list(route.deliveries), route.vehicle), ([], [], vehicle)


def law_route_of_stops(vehicle: Vehicle, stops: list):
    if stops is None:
        return None, None
    route = _Route(vehicle, stops)
    return (list(route.stops), route.vehicle), (list(stops), vehicle)


def law_route_owns_its_stops(vehicle: Vehicle, first: Stop, last: Stop, other: Stop):
    stops = [first, last]
    route = _Route(vehicle, stops)
    stops.append(other)
    return list(route.stops), [first, last]


def law_stop(vehicle: Vehicle, position: Position, previous: Stop):
    stop = Stop(vehicle, position, previous)
    return (stop.vehicle, stop.position, stop.previous, stop.pickup_planned_trips, stop.delivery_planned_trips), (
        vehicle, position, previous, set(), set())


def law_stop_with_trips(vehicle: Vehicle, position: Position, previous: Stop, a: PlannedTrip, b: PlannedTrip):
    stop = Stop(vehicle, position, previous, {a}, {b})
    return (set(stop.pickup_planned_trips), set(stop.delivery_planned_trips)), ({a}, {b})


def law_insert_stop_at(route: _Route, idx: int, stop: Stop):
    before = list(route.stops)
    result = route.insert_stop_at(idx, stop)
    return (list(route.stops), before[idx].previous, result), (before[:idx] + [stop] + before[idx:], stop, stop)


def law_remove_stop_at(route: _Route, idx: int):
    before = list(route.stops)
    result = route.remove_stop_at(idx)
    return (list(route.stops), before[idx + 1].previous, result), (
        before[:idx] + before[idx + 1:], before[idx - 1], before[idx])


class Route:
    @effects
    @returns
    def insert_stop(self, stop: Stop) -> Stop:
        if stop.previous is None:
            self.stops[1].previous = stop
            self.stops[:] = [stop] + self.stops[1:]
            return stop
        for idx in range(len(self.stops)):
            if self.stops[idx] == stop.previous:
                self.stops[idx + 1].previous = stop
                self.stops.insert(idx + 1, stop)
                return stop
        raise PreviousStopNotInRouteException(self, stop)


def law_planned_trip(vehicle: Vehicle, trip: Trip, pickup: Stop, delivery: Stop):
    if pickup is None or delivery is None:
        return None, None
    a, b = set(pickup.pickup_planned_trips), set(delivery.delivery_planned_trips)
    p = PlannedTrip(vehicle, trip, pickup, delivery)
    return (p.vehicle, p.trip, p.pickup, p.delivery, set(pickup.pickup_planned_trips), set(delivery.delivery_planned_trips)), (
        vehicle, trip, pickup, delivery, a | {p}, b | {p})


def law_planned_trip_alone(vehicle: Vehicle, trip: Trip):
    p = PlannedTrip(vehicle, trip)
    return (p.vehicle, p.trip, p.pickup, p.delivery), (vehicle, trip, None, None)


def law_append_pickup(stop: Stop, planned_trip: PlannedTrip):
    a, b = set(stop.pickup_planned_trips), set(stop.delivery_planned_trips)
    stop.append_pickup(planned_trip)
    return (set(stop.pickup_planned_trips), set(stop.delivery_planned_trips)), (a | {planned_trip}, b)


def law_append_delivery(stop: Stop, planned_trip: PlannedTrip):
    a, b = set(stop.pickup_planned_trips), set(stop.delivery_planned_trips)
    stop.append_delivery(planned_trip)
    return (set(stop.pickup_planned_trips), set(stop.delivery_planned_trips)), (a, b | {planned_trip})

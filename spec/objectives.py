"""Objectives."""
from jinete.models import Result, Planning, Route, Stop, PlannedTrip


class DialARideObjective:
    INSTANCE = True
    CASES = {"optimization_function": ["Result", "Planning", "Route", "Stop", "PlannedTrip", "tuple"]}

    def optimization_function(self, value):
        if isinstance(value, (Result, Planning)):
            planning = value.planning if isinstance(value, Result) else value
            served = 0
            travelled = 0
            for route in planning.routes:
                for stop in route.stops:
                    served += len(stop.pickup_planned_trips)
                    travelled += stop.distance
            return served, -travelled
        if isinstance(value, Route):
            served = 0
            travelled = 0
            for stop in value.stops:
                served += len(stop.pickup_planned_trips)
                travelled += stop.distance
            return served, -travelled
        if isinstance(value, Stop):
            served = 0
            travelled = 0
            for planned_trip in value.pickup_planned_trips:
                served += 1
                travelled += _ridden(planned_trip)
            return served, -travelled
        if isinstance(value, PlannedTrip):
            return 1, -_ridden(value)
        return value


def _ridden(planned_trip: PlannedTrip):
    total = 0
    stop = planned_trip.delivery
    while stop != planned_trip.pickup and stop.previous is not None:
        total += stop.distance
        stop = stop.previous
    return total


class TaxiSharingObjective:
    INSTANCE = True
    CASES = {"optimization_function": ["Result", "Planning", "Route", "Stop", "PlannedTrip", "tuple"]}

    def optimization_function(self, value):
        if isinstance(value, (Result, Planning)):
            planning = value.planning if isinstance(value, Result) else value
            total = 0
            for route in planning.routes:
                for stop in route.stops:
                    for planned_trip in stop.pickup_planned_trips:
                        total += _shared(planned_trip)
            return (total,)
        if isinstance(value, Route):
            total = 0
            for stop in value.stops:
                for planned_trip in stop.pickup_planned_trips:
                    total += _shared(planned_trip)
            return (total,)
        if isinstance(value, Stop):
            return (sum(_shared(planned_trip) for planned_trip in value.pickup_planned_trips),)
        if isinstance(value, PlannedTrip):
            return (_shared(value),)
        return value


def _shared(planned_trip: PlannedTrip):
    if planned_trip.trip.capacity == 0:
        return 0
    return planned_trip.delivery.starting_time - planned_trip.pickup.departure_time


class HashCodeObjective:
    INSTANCE = True
    CASES = {"optimization_function": ["Result", "Planning", "Route", "Stop", "PlannedTrip", "tuple"]}

    def optimization_function(self, value):
        if isinstance(value, (Result, Planning)):
            planning = value.planning if isinstance(value, Result) else value
            total = 0
            for route in planning.routes:
                for stop in route.stops:
                    for planned_trip in stop.pickup_planned_trips:
                        total += _score(planned_trip)
            return (total,)
        if isinstance(value, Route):
            total = 0
            for stop in value.stops:
                for planned_trip in stop.pickup_planned_trips:
                    total += _score(planned_trip)
            return (total,)
        if isinstance(value, Stop):
            return (sum(_score(planned_trip) for planned_trip in value.pickup_planned_trips),)
        if isinstance(value, PlannedTrip):
            return (_score(value),)
        return value


def _score(planned_trip: PlannedTrip):
    trip = planned_trip.trip
    if trip.capacity == 0:
        return 0
    length = trip.origin.position.distance_to(trip.destination.position)
    earliest = max(trip.origin.earliest, trip.destination.earliest - trip.destination.duration - trip.timeout)
    if planned_trip.pickup.departure_time == earliest:
        return length + trip.on_time_bonus
    return length

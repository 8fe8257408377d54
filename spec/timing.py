"""Times along a route."""
from functools import reduce
from jinete.models import Stop as _Stop, Position, Trip, PlannedTrip as _PlannedTrip, Vehicle


class Stop:
    FIELDS = {"_starting_time": "setter:starting_time"}

    @property
    def previous_departure_time(self):
        return self.vehicle.origin.earliest if self.previous is None else self.previous.departure_time

    @property
    def previous_position(self):
        return self.vehicle.origin.position if self.previous is None else self.previous.position

    @property
    def transit_time(self):
        if self.previous is None:
            return self.vehicle.origin.position.time_to(self.position, self.vehicle.origin.earliest)
        return self.previous.position.time_to(self.position, self.previous.departure_time)

    @property
    def distance(self):
        if self.previous is None:
            return self.position.distance_to(self.vehicle.origin.position)
        return self.position.distance_to(self.previous.position)

    def distance__alt2(self):
        if self.previous is None:
            return self.vehicle.origin.position.distance_to(self.position)
        return self.previous.position.distance_to(self.position)

    @property
    def arrival_time(self):
        if self.previous is None:
            return self.vehicle.origin.earliest + self.transit_time
        return self.previous.departure_time + self.transit_time

    @property
    def starting_time(self):
        if self._starting_time is None:
            return max(self.earliest, self.arrival_time)
        return max(self._starting_time, self.earliest, self.arrival_time)

    @property
    def waiting_time(self):
        return self.starting_time - self.arrival_time

    @property
    def departure_time(self):
        return self.starting_time + self.load_time

    @property
    def load_time(self):
        result = 0.0
        first = True
        for planned_trip in self.pickup_planned_trips:
            if first or planned_trip.trip.origin.duration > result:
                result = planned_trip.trip.origin.duration
            first = False
        for planned_trip in self.delivery_planned_trips:
            if first or planned_trip.trip.destination.duration > result:
                result = planned_trip.trip.destination.duration
            first = False
        return result

    def load_time__alt2(self):
        return max(
            [p.trip.origin.duration for p in self.pickup_planned_trips]
            + [p.trip.destination.duration for p in self.delivery_planned_trips],
            default=0.0,
        )


class PlannedTrip:
    @property
    def pickup_time(self):
        return self.pickup.departure_time

    @property
    def delivery_time(self):
        return self.delivery.starting_time

    @property
    def duration(self):
        return self.delivery.starting_time - self.pickup.departure_time

    @property
    def load_time(self):
        return self.pickup.load_time + self.delivery.load_time

    @property
    def distance(self):
        return self.trip.origin.position.distance_to(self.trip.destination.position)

    @property
    def waiting_time(self):
        total = 0
        stop = self.delivery
        while stop != self.pickup:
            total = total + stop.waiting_time
            stop = stop.previous
        return total

    @property
    def transit_time(self):
        total = 0
        stop = self.delivery
        while stop != self.pickup:
            total = total + stop.transit_time
            stop = stop.previous
        return total


class Trip:
    @property
    def distance(self):
        return self.origin.position.distance_to(self.destination.position)

    def duration(self, now: float):
        return self.origin.position.time_to(self.destination.position, now)


class Route:
    @property
    def first_stop(self):
        return self.stops[0]

    @property
    def last_stop(self):
        return self.stops[len(self.stops) - 1]

    @property
    def current_stop(self):
        return self.stops[len(self.stops) - 2]

    @property
    def first_departure_time(self):
        return self.stops[0].departure_time

    @property
    def last_departure_time(self):
        return self.stops[-1].departure_time

    @property
    def last_position(self):
        return self.stops[-1].position

    @property
    def current_arrival_time(self):
        return self.stops[-2].arrival_time

    @property
    def current_departure_time(self):
        return self.stops[-2].departure_time

    @property
    def current_position(self):
        return self.stops[-2].position

    @property
    def duration(self):
        return self.stops[-1].departure_time - self.stops[0].departure_time

    @property
    def transit_time(self):
        total = 0
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                total = total + (planned_trip.delivery.starting_time - planned_trip.pickup.departure_time)
        return total

    @property
    def waiting_time(self):
        return sum(stop.waiting_time for stop in self.stops)

    @property
    def distance(self):
        total = 0
        for stop in self.stops:
            if stop.previous is None:
                total += stop.position.distance_to(stop.vehicle.origin.position)
            else:
                total += stop.position.distance_to(stop.previous.position)
        return total

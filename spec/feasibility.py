"""Verdicts."""


class Stop:
    @property
    def feasible(self):
        return (
            self.earliest - 0.001 <= self.starting_time <= self.latest + 0.001
            and self.capacity <= self.vehicle.capacity + 0.001
        )


class PlannedTrip:
    @property
    def timeout(self):
        return self.trip.timeout

    @property
    def feasible(self):
        return (
            self.pickup.feasible
            and self.delivery.feasible
            and self.delivery.starting_time - self.pickup.departure_time <= self.trip.timeout + 0.001
        )


class Route:
    FIELDS = {"_destination": "ctor:Vehicle.destination"}

    @property
    def feasible_stops(self):
        return all(stop.feasible for stop in self.stops)

    @property
    def feasible_planned_trips(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                if not planned_trip.feasible:
                    return False
        return True

    @property
    def feasible(self):
        first = self.stops[0]
        last = self.stops[-1]
        vehicle = self.vehicle
        destination = vehicle.origin if vehicle._destination is None else vehicle._destination
        if first.position != vehicle.origin.position or last.position != destination.position:
            return False
        if first.arrival_time < vehicle.origin.earliest - 0.001:
            return False
        if last.departure_time > destination.latest + 0.001:
            return False
        if last.departure_time - first.departure_time > vehicle.timeout + 0.001:
            return False
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                if not planned_trip.feasible:
                    return False
        return True


class Planning:
    @property
    def feasible(self):
        for route in self.routes:
            if not route.feasible:
                return False
        return True


class Result:
    @property
    def feasible(self):
        return self.planning.feasible

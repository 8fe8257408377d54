"""Passengers on board."""


class Stop:
    @property
    def previous_capacity(self):
        return 0 if self.previous is None else self.previous.capacity

    @property
    def capacity(self):
        onboard = 0 if self.previous is None else self.previous.capacity
        for planned_trip in self.pickup_planned_trips:
            onboard = onboard + planned_trip.trip.capacity
        for planned_trip in self.delivery_planned_trips:
            onboard = onboard - planned_trip.trip.capacity
        return onboard


class PlannedTrip:
    @property
    def capacity(self):
        return self.trip.capacity

    @property
    def empty(self):
        return self.trip.capacity == 0


class Trip:
    @property
    def empty(self):
        return self.capacity == 0


class Route:
    @property
    def loaded(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                return True
        return False

    @property
    def loaded_planned_trips(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                if planned_trip.trip.capacity != 0:
                    yield planned_trip

    @property
    def loaded_trips(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                if planned_trip.trip.capacity != 0:
                    yield planned_trip.trip

    @property
    def loaded_trips_count(self):
        n = 0
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                if planned_trip.trip.capacity != 0:
                    n += 1
        return n

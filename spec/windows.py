"""Time windows of services, trips, vehicles and stops."""


class Trip:
    @property
    def origin_position(self):
        return self.origin.position

    @property
    def destination_position(self):
        return self.destination.position

    @property
    def origin_duration(self):
        return self.origin.duration

    @property
    def destination_duration(self):
        return self.destination.duration

    @property
    def origin_earliest(self):
        return max(self.origin.earliest, self.destination.earliest - self.destination.duration - self.timeout)

    @property
    def origin_latest(self):
        ride = self.origin.position.time_to(self.destination.position)
        return min(self.origin.latest, self.destination.latest - self.destination.duration - ride)

    @property
    def destination_earliest(self):
        ride = self.origin.position.time_to(self.destination.position)
        return max(self.destination.earliest, self.origin.earliest + self.origin.duration + ride)

    @property
    def destination_latest(self):
        return min(self.destination.latest, self.origin.latest + self.origin.duration + self.timeout)


class Stop:
    @property
    def earliest(self):
        opening = []
        for planned_trip in self.pickup_planned_trips:
            trip = planned_trip.trip
            opening.append(max(trip.origin.earliest,
                               trip.destination.earliest - trip.destination.duration - trip.timeout))
        for planned_trip in self.delivery_planned_trips:
            trip = planned_trip.trip
            ride = trip.origin.position.time_to(trip.destination.position)
            opening.append(max(trip.destination.earliest, trip.origin.earliest + trip.origin.duration + ride))
        if opening:
            return max(opening)
        return 0.0

    @property
    def latest(self):
        closing = []
        for planned_trip in self.pickup_planned_trips:
            trip = planned_trip.trip
            ride = trip.origin.position.time_to(trip.destination.position)
            closing.append(min(trip.origin.latest, trip.destination.latest - trip.destination.duration - ride))
        for planned_trip in self.delivery_planned_trips:
            trip = planned_trip.trip
            closing.append(min(trip.destination.latest, trip.origin.latest + trip.origin.duration + trip.timeout))
        if closing:
            return min(closing)
        return float("inf")


class Vehicle:
    FIELDS = {"_destination": "ctor:destination"}

    @property
    def origin_position(self):
        return self.origin.position

    @property
    def origin_earliest(self):
        return self.origin.earliest

    @property
    def origin_latest(self):
        return self.origin.latest

    @property
    def origin_duration(self):
        return self.origin.duration

    @property
    def destination(self):
        return self.origin if self._destination is None else self._destination

    @property
    def destination_position(self):
        return self.origin.position if self._destination is None else self._destination.position

    @property
    def destination_earliest(self):
        return self.origin.earliest if self._destination is None else self._destination.earliest

    @property
    def destination_latest(self):
        return self.origin.latest if self._destination is None else self._destination.latest

    @property
    def destination_duration(self):
        return self.origin.duration if self._destination is None else self._destination.duration


class Service:
    @effects
    def __init__(self, position, earliest=0.0, latest=float("inf"), duration=0.0):
        self.position = position
        self.earliest = earliest
        self.latest = latest
        self.duration = duration

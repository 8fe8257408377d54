"""Field views."""


class Model:
    def __repr__(self):
        fields = ", ".join(f"{key}={value}" for key, value in dict(self).items())
        return f"{self.__class__.__name__}({fields})"


class GeometricPosition:
    def __iter__(self):
        yield "coordinates", self.coordinates


class Service:
    def __iter__(self):
        yield "position", self.position
        yield "earliest", self.earliest
        yield "latest", self.latest
        yield "duration", self.duration


class Trip:
    def __iter__(self):
        yield "identifier", self.identifier
        yield "origin", tuple(self.origin)
        yield "destination", tuple(self.destination)
        yield "on_time_bonus", self.on_time_bonus
        yield "capacity", self.capacity
        yield "timeout", self.timeout


class Vehicle:
    FIELDS = {"_destination": "ctor:destination"}

    def __iter__(self):
        destination = self.origin if self._destination is None else self._destination
        yield "identifier", self.identifier
        yield "origin", tuple(self.origin)
        yield "destination", tuple(destination)
        yield "capacity", self.capacity
        yield "timeout", self.timeout


class Fleet:
    def __iter__(self):
        yield "vehicle_identifiers", tuple(vehicle.identifier for vehicle in self.vehicles)


class Job:
    def __iter__(self):
        yield "trip_identifiers", tuple(trip.identifier for trip in self.trips)
        yield "objective", self.objective


class PlannedTrip:
    def __iter__(self):
        yield "trip_identifier", self.trip.identifier
        yield "pickup", self.pickup
        yield "delivery", self.delivery
        yield "feasible", self.feasible

    @property
    def trip_identifier(self):
        return self.trip.identifier

    @property
    def vehicle_identifier(self):
        return self.vehicle.identifier

    @property
    def origin(self):
        return self.trip.origin.position

    @property
    def destination(self):
        return self.trip.destination.position


class Stop:
    @property
    def identifier(self):
        names = [f"P{planned_trip.trip.identifier}" for planned_trip in self.pickup_planned_trips]
        names += [f"D{planned_trip.trip.identifier}" for planned_trip in self.delivery_planned_trips]
        return "[" + "|".join(names) + "]"

    @property
    def planned_trips(self):
        for planned_trip in self.pickup_planned_trips:
            yield planned_trip
        for planned_trip in self.delivery_planned_trips:
            yield planned_trip

    @property
    def trips(self):
        for planned_trip in self.pickup_planned_trips:
            yield planned_trip.trip
        for planned_trip in self.delivery_planned_trips:
            yield planned_trip.trip

    def __iter__(self):
        yield "position", self.position
        yield "identifier", self.identifier


class Route:
    @property
    def identifier(self):
        return "|".join([stop.identifier for stop in self.stops])

    @property
    def positions(self):
        for stop in self.stops:
            yield stop.position

    @property
    def planned_trips(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                yield planned_trip

    @property
    def pickups(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                yield planned_trip

    @property
    def deliveries(self):
        for stop in self.stops:
            for planned_trip in stop.delivery_planned_trips:
                yield planned_trip

    @property
    def trips(self):
        for stop in self.stops:
            for planned_trip in stop.pickup_planned_trips:
                yield planned_trip.trip

    @property
    def vehicle_identifier(self):
        return None if self.vehicle is None else self.vehicle.identifier

    def __iter__(self):
        yield "vehicle_identifier", None if self.vehicle is None else self.vehicle.identifier
        yield "stops_identifiers", tuple(stop.identifier for stop in self.stops)


class Planning:
    def __iter__(self):
        yield "uuid", self.uuid
        yield "route_identifiers", tuple(route.identifier for route in self.routes)


class Surface:
    def __iter__(self):
        yield "position_coordinates", tuple(position.coordinates for position in self.positions)


class Result:
    def __iter__(self):
        yield "fleet_uuid", tuple(self.fleet)
        yield "job", tuple(self.job)
        yield "algorithm_name", type(self.algorithm).__name__
        yield "planning_uuid", self.planning.uuid

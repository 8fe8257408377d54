"""What a planning and a result report."""


class Planning:
    @property
    def loaded_routes(self):
        found = set()
        for route in self.routes:
            if any(True for stop in route.stops for _ in stop.pickup_planned_trips):
                found.add(route)
        return found

    @property
    def vehicles(self):
        for route in self.routes:
            yield route.vehicle

    @property
    def planned_trips(self):
        for route in self.routes:
            for stop in route.stops:
                for planned_trip in stop.pickup_planned_trips:
                    yield planned_trip

    @property
    def trips(self):
        for route in self.routes:
            for stop in route.stops:
                for planned_trip in stop.pickup_planned_trips:
                    yield planned_trip.trip


class Result:
    @property
    def job(self):
        return self.algorithm.job

    @property
    def fleet(self):
        return self.algorithm.fleet

    @property
    def trips(self):
        return self.algorithm.job.trips

    @property
    def vehicles(self):
        return self.algorithm.fleet.vehicles

    @property
    def routes(self):
        return self.planning.routes

    @property
    def planning_uuid(self):
        return self.planning.uuid

    @property
    def completed_trips(self):
        done = set()
        for route in self.planning.routes:
            for stop in route.stops:
                for planned_trip in stop.pickup_planned_trips:
                    if planned_trip.trip.capacity != 0:
                        done.add(planned_trip.trip)
        return done

    @property
    def coverage_rate(self):
        done = set()
        for route in self.planning.routes:
            for stop in route.stops:
                for planned_trip in stop.pickup_planned_trips:
                    if planned_trip.trip.capacity != 0:
                        done.add(planned_trip.trip)
        return len(done) / len(self.algorithm.job.trips)

    @property
    def objective(self):
        return self.algorithm.job.objective

    @property
    def optimization_value(self):
        return self.algorithm.job.objective.optimization_function(self)

    @property
    def direction(self):
        return self.algorithm.job.objective.direction

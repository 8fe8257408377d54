"""Reports."""
from jinete.models import PlannedTrip, Result, Route, Stop
from jinete.storers import ColumnarStorerFormatter as _Columnar, HashCodeStorerFormatter as _HashCode
from jinete.storers import FileStorer as _FileStorer, PromptStorer as _PromptStorer


def _report(result: Result, tab, routes):
    lines = [f'Planning UUID: "{result.planning.uuid}"', f'Routes count: "{len(routes)}"', "Routes: "]
    body = []
    for route in routes:
        vehicle = route.vehicle
        body.append("Vehicle: ")
        body.append(f'{tab}ID: "{vehicle.identifier}"')
        body.append(f"{tab}Initial:  {vehicle.origin.position}")
        body.append(f"{tab}Final:    {vehicle.destination.position}")
        body.append(f"{tab}Earliest: {vehicle.origin.earliest:7.2f}")
        body.append(f"{tab}Latest:   {vehicle.origin.latest:7.2f}")
        body.append(f"{tab}Capacity: {vehicle.capacity:7.2f}")
        body.append(f'Planned Trips: "{len([1 for stop in route.stops for _ in stop.pickup_planned_trips])}"')
        for stop in route.stops:
            for planned_trip in stop.pickup_planned_trips:
                body.append(tab + _trip_row(planned_trip, tab))
        body.append(f'Stops: "{len(route.stops)}"')
        for stop in route.stops:
            body.append(tab + _stop_row(stop, tab))
    lines.append("\n".join(tab + row for row in body))
    objective = result.algorithm.job.objective
    lines.append(f'Computation time: "{result.computation_time:0.4f}" seconds')
    lines.append(f'Coverage Rate: "{result.coverage_rate}"')
    lines.append(f'Objective: "{objective.__class__.__name__}"')
    lines.append(f'Optimization Value: "{objective.optimization_function(result)}"')
    lines.append(f'Feasible: "{result.planning.feasible}"')
    lines.append(f'Direction: "{objective.direction}"')
    return "\n".join(lines)


def _trip_row(planned_trip: PlannedTrip, tab):
    trip = planned_trip.trip
    return tab.join([
        f"ID: {trip.identifier:5}",
        f"P: {trip.origin.position} to {trip.destination.position}",
        f"TW: {trip.origin_earliest:7.01f} to {trip.destination_latest:7.01f}",
        f"WT: {planned_trip.waiting_time:7.01f}",
        f"NT: {planned_trip.transit_time:7.01f}",
        f"LT: {planned_trip.load_time:4.01f}",
        f"TT: {planned_trip.delivery.starting_time - planned_trip.pickup.departure_time:6.01f}",
        f"T: {planned_trip.pickup.departure_time:7.01f} to {planned_trip.delivery.starting_time:7.01f}",
        f"L: {trip.capacity}",
    ])


def _stop_row(stop: Stop, tab):
    return tab.join([
        f"ID: {stop.identifier:5}",
        f"P: {stop.position}",
        f"TW: {stop.earliest:7.01f} to {stop.latest:7.01f}",
        f"WT: {stop.waiting_time:7.01f}",
        f"NT: {stop.transit_time:7.01f}",
        f"LT: {stop.load_time:5.01f}",
        f"DT: {stop.departure_time:7.01f}",
        f"L: {stop.capacity}",
    ])


def _loaded(result: Result):
    found = set()
    for route in result.planning.routes:
        if any(True for stop in route.stops for _ in stop.pickup_planned_trips):
            found.add(route)
    return found


def law_columnar(result: Result):
    return _Columnar(result=result).format(), _report(result, "  ", result.planning.routes)


def law_columnar_options(result: Result, tab: str):
    return (
        _Columnar(tab, result=result, remove_empty_routes=True).format(),
        _report(result, tab, _loaded(result)),
    )


def _line(route: Route):
    names = []
    for stop in route.stops:
        for planned_trip in stop.pickup_planned_trips:
            if planned_trip.trip.capacity != 0:
                names.append(planned_trip.trip.identifier)
    return str(len(names)) + " " + " ".join(names)


def law_hashcode(result: Result):
    return _HashCode(result=result).format(), "\n".join(sorted([_line(route) for route in _loaded(result)]))


def law_hashcode_all(result: Result):
    return (
        _HashCode(result=result, remove_empty_routes=False).format(),
        "\n".join(sorted([_line(route) for route in result.planning.routes])),
    )


class FileStorer:
    @effects
    def store(self):
        with self.file_path.open("w") as file:
            file.write(self.formatter_cls(result=self.result).format())


class PromptStorer:
    @effects
    def store(self):
        print(self.formatter_cls(result=self.result).format())


class NaiveStorer:
    @effects
    def store(self):
        pass


class StorerSet:
    @effects
    def store(self):
        for storer_cls in self.storer_cls_set:
            storer_cls(*self.args, **self.kwargs).store()


def law_default_formatter(result: Result):
    return _PromptStorer(result=result).formatter_cls, _Columnar


def law_default_formatter_file(result: Result, path):
    return _FileStorer(path, result=result).formatter_cls, _Columnar

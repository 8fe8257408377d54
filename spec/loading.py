"""Column mapping of the instance formats."""
from pathlib import Path
from typing import Type
from jinete.loaders import CordeauLaporteLoaderFormatter as _Cordeau, FileLoader as _FileLoader
from jinete.loaders import LoaderFormatter as _LoaderFormatter
from jinete.models import (
    DialARideObjective, DistanceMetric, Fleet, GeometricSurface, HashCodeObjective, Job, Service, Surface, Trip, Vehicle,
)


class CordeauLaporteLoaderFormatter:
    def fleet(self, surface: Surface):
        header = self.data[0]
        depot = self.data[1]
        origin = Service(surface.get_or_create_position(depot[1:3]))
        return Fleet({
            Vehicle(str(idx), origin, capacity=header[3], timeout=header[2]) for idx in range(int(header[0]))
        })

    def job(self, surface: Surface):
        header = self.data[0]
        count = int(header[1] // 2)
        trips = set()
        for idx in range(count):
            pickup = self.data[idx + 2]
            delivery = self.data[idx + 2 + count]
            assert pickup[4] == -delivery[4]
            trips.add(Trip(
                f"{idx + 1:.0f}",
                Service(surface.get_or_create_position(pickup[1:3]), pickup[5], pickup[6], pickup[3]),
                Service(surface.get_or_create_position(delivery[1:3]), delivery[5], delivery[6], delivery[3]),
                capacity=pickup[4],
                timeout=header[4],
            ))
        return Job(trips, objective_cls=DialARideObjective)

    def surface(self):
        return GeometricSurface(DistanceMetric.EUCLIDEAN)


class HashCodeLoaderFormatter:
    def fleet(self, surface: Surface):
        header = self.data[0]
        origin = Service(surface.get_or_create_position([0, 0]), latest=header[5])
        return Fleet({Vehicle(str(idx), origin, capacity=1.0) for idx in range(int(header[2]))})

    def job(self, surface: Surface):
        header = self.data[0]
        trips = set()
        for idx, row in enumerate(self.data[1:]):
            x1, y1, x2, y2, earliest, latest = row
            trips.add(Trip(
                str(idx),
                Service(surface.get_or_create_position([x1, y1]), earliest, latest),
                Service(surface.get_or_create_position([x2, y2])),
                on_time_bonus=header[4],
            ))
        return Job(trips, objective_cls=HashCodeObjective)

    def surface(self):
        return GeometricSurface(DistanceMetric.MANHATTAN)


def _rows(path: Path):
    return [[float(v) for v in line.split()] for line in path.open().readlines()]


def law_file_fleet(path: Path, formatter: Type[_LoaderFormatter]):
    if formatter is None or not isinstance(path, Path):
        return None, None
    loader = _FileLoader(path, formatter)
    return loader.fleet, formatter(_rows(path)).fleet(surface=formatter(_rows(path)).surface())


def law_file_job(path: Path, formatter: Type[_LoaderFormatter]):
    if formatter is None or not isinstance(path, Path):
        return None, None
    loader = _FileLoader(path, formatter)
    return loader.job, formatter(_rows(path)).job(surface=formatter(_rows(path)).surface())


def law_file_surface(path: Path, formatter: Type[_LoaderFormatter]):
    if formatter is None or not isinstance(path, Path):
        return None, None
    return _FileLoader(path, formatter).surface, formatter(_rows(path)).surface()


def law_file_named(name: str, formatter: Type[_LoaderFormatter]):
    if formatter is None or isinstance(name, Path):
        return None, None
    return _FileLoader(name, formatter).surface, formatter(_rows(Path(name))).surface()


def law_file_default(path: Path):
    return _FileLoader(path).surface, _Cordeau(_rows(path)).surface()


def law_file_default_job(path: Path):
    loader = _FileLoader(path)
    return loader.job, _FileLoader(path, _Cordeau).job


def law_registered_position(surface: GeometricSurface, x: float, y: float):
    return surface.get_or_create_position([x, y]).coordinates, (x, y)


def law_position_surface(surface: GeometricSurface, x: float, y: float):
    return surface.get_or_create_position([x, y]).surface, surface

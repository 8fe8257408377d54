"""Distances and travel times."""
from math import sqrt
from jinete.models import DistanceMetric as _Metric, Position, Service as _Service, Surface


class DistanceMetric:
    def __call__(self, *args, **kwargs):
        return self.value(*args, **kwargs)


class Position:
    def distance_to(self, other):
        return self.surface.distance(self, other)

    def time_to(self, other, now=None):
        return self.surface.time(self, other, now=now)


class Service:
    def distance_to(self, other):
        return self.position.surface.distance(self.position, other.position)


def law_euclidean(a, b):
    return _Metric.EUCLIDEAN(a, b), sqrt(sum((x - y) * (x - y) for x, y in zip(a, b)))


def law_manhattan(a, b):
    return _Metric.MANHATTAN(a, b), sum(abs(x - y) for x, y in zip(a, b))


def law_service_time_now(a: _Service, b: _Service, now: float):
    return a.time_to(b, now), a.position.surface.time(a.position, b.position, now=now)


def law_service_time_named(a: _Service, b: _Service, now: float):
    return a.time_to(b, now=now), a.position.surface.time(a.position, b.position, now=now)


def law_position_time(a: Position, b: Position):
    return a.time_to(b), a.surface.time(a, b, now=None)

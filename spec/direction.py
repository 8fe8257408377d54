"""Selection by direction."""
from jinete.models import OptimizationDirection as _D


class OptimizationDirection:
    MEMBERS = ["MAXIMIZATION", "MINIMIZATION"]

    def __call__(self, *args, **kwargs):
        if self is _D.MAXIMIZATION:
            return max(*args, **kwargs)
        return min(*args, **kwargs)

    @effects
    @returns
    def sorted(self, iterable, key, inplace=False):
        if inplace and isinstance(iterable, list):
            iterable.sort(key=key, reverse=self is _D.MAXIMIZATION)
            return iterable
        return sorted(iterable, key=key, reverse=self is _D.MAXIMIZATION)

    @effects
    @returns
    def nbest(self, n, iterable, key, inplace=False):
        return sorted(iterable, key=key, reverse=self is _D.MAXIMIZATION)[:n]


class Objective:
    SUBCLASSES_ONLY = True
    INSTANCE = True

    def best(self, *args):
        candidates = [value for value in args if value is not None]
        return max(candidates, key=self.optimization_function, default=None)


class EarliestLastDepartureTimeRouteCriterion:
    INSTANCE = True

    def best(self, *args):
        candidates = [value for value in args if value is not None]
        return min(candidates, key=self.scoring, default=None)

    @effects
    @returns
    def sorted(self, routes, inplace=False):
        if inplace and isinstance(routes, list):
            routes.sort(key=self.scoring)
            return routes
        return sorted(routes, key=self.scoring)

    def nbest(self, n, routes):
        return sorted(routes, key=self.scoring)[:n]


class ShortestTimeRouteCriterion(EarliestLastDepartureTimeRouteCriterion):
    INSTANCE = True


class ShortestAveragePlannerTripDurationCriterion(EarliestLastDepartureTimeRouteCriterion):
    INSTANCE = True


class LongestTimeRouteCriterion:
    INSTANCE = True

    def best(self, *args):
        candidates = [value for value in args if value is not None]
        return max(candidates, key=self.scoring, default=None)

    @effects
    @returns
    def sorted(self, routes, inplace=False):
        if inplace and isinstance(routes, list):
            routes.sort(key=self.scoring, reverse=True)
            return routes
        return sorted(routes, key=self.scoring, reverse=True)

    def nbest(self, n, routes):
        return sorted(routes, key=self.scoring, reverse=True)[:n]


class LongestUtilTimeRouteCriterion(LongestTimeRouteCriterion):
    INSTANCE = True


class HashCodeRouteCriterion(LongestTimeRouteCriterion):
    INSTANCE = True

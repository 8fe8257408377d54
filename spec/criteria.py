"""Route criteria: an infeasible route never beats a feasible one."""
from jinete.models import Route


class EarliestLastDepartureTimeRouteCriterion:
    INSTANCE = True

    def scoring(self, route: Route):
        return route.stops[-1].departure_time if route.feasible else float("inf")


class ShortestTimeRouteCriterion:
    INSTANCE = True

    def scoring(self, route: Route):
        if route.feasible:
            return route.stops[-1].departure_time - route.stops[0].departure_time
        return float("inf")


class LongestTimeRouteCriterion:
    INSTANCE = True

    def scoring(self, route: Route):
        if route.feasible:
            return route.stops[-1].departure_time - route.stops[0].departure_time
        return -float("inf")


class ShortestAveragePlannerTripDurationCriterion:
    INSTANCE = True

    def scoring(self, route: Route):
        if not route.feasible:
            return float("inf")
        total = 0
        count = 0
        for stop in route.stops:
            for planned_trip in stop.pickup_planned_trips:
                total += planned_trip.delivery.starting_time - planned_trip.pickup.departure_time
                count += 1
        if count == 0:
            return 0
        return total / count


class LongestUtilTimeRouteCriterion:
    INSTANCE = True

    def scoring(self, route: Route):
        if not route.feasible:
            return -float("inf")
        total = 0
        for stop in route.stops:
            for planned_trip in stop.pickup_planned_trips:
                trip = planned_trip.trip
                total += trip.origin.position.distance_to(trip.destination.position)
        return total


class HashCodeRouteCriterion:
    INSTANCE = True

    def scoring(self, route: Route):
        if not route.feasible:
            return -float("inf")
        total = 0
        for stop in route.stops:
            for planned_trip in stop.pickup_planned_trips:
                trip = planned_trip.trip
                total += trip.origin.position.distance_to(trip.destination.position)
                opening = max(trip.origin.earliest,
                              trip.destination.earliest - trip.destination.duration - trip.timeout)
                if planned_trip.pickup.departure_time == opening:
                    total += trip.on_time_bonus
        return total

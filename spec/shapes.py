"""Symbolic routes of a given shape, and what they look like."""
from jinete.models import PlannedTrip, Route, Stop


class Line:
    """A route over the given positions; each pair of indices is a trip planned between these stops."""

    def __init__(self, v, positions, plans):
        self.stops = []
        for p in positions:
            self.stops.append(Stop(v, p, self.stops[-1] if len(self.stops) > 0 else None))
        self.planned = [PlannedTrip(v, q, self.stops[i], self.stops[j]) for q, i, j in plans]
        self.route = Route(v, list(self.stops))
        self.v = v

    def picture(self):
        return (
            [x is y for x, y in zip(self.route.stops, self.stops)], len(self.route.stops),
            [x.previous is y for x, y in zip(self.stops[1:], self.stops[:-1])], self.stops[0].previous is None,
            [(len(x.pickup_planned_trips), len(x.delivery_planned_trips)) for x in self.stops],
            [q.pickup is self.stops[0] for q in self.planned])


def picture(r):
    """Positions, links and trips of a route, in order."""
    return (
        [s.position for s in r.stops],
        [b.previous is a for a, b in zip(r.stops[:-1], r.stops[1:])],
        [set(q.trip for q in s.pickup_planned_trips) for s in r.stops],
        [set(q.trip for q in s.delivery_planned_trips) for s in r.stops],
        all(q.pickup is s for s in r.stops for q in s.pickup_planned_trips),
        all(q.delivery is s for s in r.stops for q in s.delivery_planned_trips))


def expected(positions, plans, trip, i, j):
    """The same picture, drawn by hand: pickup right after stop i, delivery right before stop j."""
    n = len(positions)
    order = list(range(i + 1)) + ["p"] + list(range(i + 1, j)) + ["d"] + list(range(j, n))
    return (
        [trip.origin_position if k == "p" else trip.destination_position if k == "d" else positions[k] for k in order],
        [True] * (n + 1),
        [{trip} if k == "p" else set(q for q, a, b in plans if a == k) for k in order],
        [{trip} if k == "d" else set(q for q, a, b in plans if b == k) for k in order],
        True, True)

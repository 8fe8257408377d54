"""The errors of the package: one family, each telling its cause."""
from jinete.exceptions import (
    JineteException,
    NonFeasiblePlannedTripException,
    NonFeasibleRouteException,
    PreviousStopNotInRouteException,
)
from jinete.loaders.exceptions import LoaderException
from jinete.loaders.formatters.exceptions import LoaderFormatterException
from jinete.models import PlannedTrip, Route, Stop


def law_base(text: str):
    return JineteException(text).message, text


def law_base_shows_message(text: str):
    e = JineteException(text)
    return (e.args, str(e)), ((text,), text)


def law_previous_stop(route: Route, stop: Stop):
    e = PreviousStopNotInRouteException(route, stop)
    return (e.route, e.stop, isinstance(e, JineteException), str(stop) in e.message, str(route) in e.message), (
        route, stop, True, True, True)


def law_planned_trip(planned_trip: PlannedTrip):
    if planned_trip.feasible:
        return None, None
    e = NonFeasiblePlannedTripException(planned_trip)
    return (e.planned_trip, isinstance(e, JineteException), str(planned_trip) in e.message, str(planned_trip) in str(e)), (
        planned_trip, True, True, True)


def law_route(route: Route):
    if route.feasible:
        return None, None
    e = NonFeasibleRouteException(route)
    return (e.route, isinstance(e, JineteException), str(route) in e.message, str(route) in str(e)), (
        route, True, True, True)


def law_loading(text: str):
    e, f = LoaderException(text), LoaderFormatterException(text)
    return (e.message, str(e), isinstance(e, JineteException), f.message, str(f), isinstance(f, JineteException),
            isinstance(f, LoaderException), isinstance(e, LoaderFormatterException)), (
        text, text, True, text, text, True, True, False)

"""Where random choices come from: the seed option of the component that makes them, and nothing else."""
from random import Random

from jinete.algorithms import (
    Algorithm,
    BestStatelessInsertionIterator,
    GraspAlgorithm,
    InsertionAlgorithm,
    InsertionIterator,
    InsertionStrategy,
    IterativeAlgorithm,
    RankingInsertionIterator,
    ReallocationLocalSearchStrategy,
    SamplingInsertionStrategy,
    SequentialAlgorithm,
)
from jinete.models import MAX_INT, Fleet, Job, Objective, Planning, Position, Result, Route, RouteCriterion, Service, Trip, Vehicle
from jinete.utils import sample_index_pairs
from jvspec.inserting import _Behind, _behind, _Table
from jvspec.shapes import Line, picture
from jvspec.search import _Stub, _job


@unroll(10)
@opaque("Objective.best")
def law_iterative_seeds(fleet: Fleet, objective: Objective, a: Result, b: Result, c: Result, seed: int):
    if a is None or b is None or c is None or objective is None:
        return None, None
    seen = []
    results = [a, b, c]

    def build(**kwargs):
        return _Stub(results.pop(0), seen, kwargs)

    IterativeAlgorithm(episodes=3, algorithm_cls=build, seed=seed, fleet=fleet, job=_job(objective)).optimize()
    random = Random(seed)
    return [k["seed"] for k in seen], [random.randint(0, MAX_INT) for _ in range(3)]


@unroll(10)
@opaque("Objective.best")
def law_iterative_default_seed(fleet: Fleet, objective: Objective, a: Result):
    if a is None or objective is None:
        return None, None
    seen, again = [], []

    def build(**kwargs):
        return _Stub(a, seen, kwargs)

    def rebuild(**kwargs):
        return _Stub(a, again, kwargs)

    IterativeAlgorithm(episodes=1, algorithm_cls=build, fleet=fleet, job=_job(objective)).optimize()
    IterativeAlgorithm(episodes=1, algorithm_cls=rebuild, seed=56, fleet=fleet, job=_job(objective)).optimize()
    return [k["seed"] for k in seen], [k["seed"] for k in again]


@unroll(10)
def law_sequential_seeds(fleet: Fleet, job: Job, a: Result, b: Result, own: int, seed: int):
    if a is None or b is None:
        return None, None
    seen = []

    def build(**kwargs):
        return _Stub(a, seen, kwargs)

    SequentialAlgorithm(
        algorithms_cls=[(build, {}), (build, {"seed": own}), (build, {})], seed=seed, fleet=fleet, job=job).optimize()
    random = Random(seed)
    return [k["seed"] for k in seen], [random.randint(0, MAX_INT), own, random.randint(0, MAX_INT)]


@opaque("Algorithm.optimize")
def law_grasp_seed(fleet: Fleet, job: Job, p, q, seed: int):
    x = GraspAlgorithm(first_solution_kwargs={"p": p}, local_search_kwargs={"q": q}, seed=seed, fleet=fleet, job=job)
    reference = IterativeAlgorithm(
        algorithm_cls=SequentialAlgorithm,
        algorithms_cls=[
            (IterativeAlgorithm, {"p": p, "fleet": fleet, "job": job}),
            (IterativeAlgorithm, {"q": q, "fleet": fleet, "job": job, "algorithm_cls": SequentialAlgorithm,
                                  "restart_mode": False, "episodes": 3})],
        seed=seed, fleet=fleet, job=job)
    return x._optimize(), reference.optimize().planning


class _Seen(InsertionIterator):
    def __init__(self, seen, seed=None, **kwargs):
        super().__init__(**kwargs)
        seen.append(seed)

    def __next__(self):
        raise StopIteration


@unroll(10)
def law_insertion_hands_on_the_seed(h: Service, seed: int):
    seen = []
    InsertionAlgorithm(_Seen, None, seen=seen, seed=seed, fleet=Fleet({Vehicle("v", h)}), job=Job(set(), None)).optimize()
    return seen, [seed]


def _options(h, k, l, n):
    a, p, q, x = h.position, Trip("p", k, l, capacity=n), Trip("q", l, k, capacity=n), Trip("x", k, l, capacity=n)
    v = Vehicle("v", h)
    here = Line(v, [a, k.position, l.position, a], [(x, 1, 2)]).route
    offers = [_behind(here, p), _behind(here, q)]
    return offers, dict(fleet=Fleet({v}), job=Job({p, q, x}, None), routes={here}, strategy_cls=_Behind, criterion_cls=_Table,
                        marks=[(v, p, 2), (v, q, 1)])


@unroll(10)
@opaque("Route.feasible")
def law_successive_draws(h: Service, k: Service, l: Service, seed: int, n: float):
    offers, options = _options(h, k, l, n)
    iterator = RankingInsertionIterator(randomized_size=2, seed=seed, **options)
    found = [picture(next(iterator)), picture(next(iterator)), picture(next(iterator))]
    random, ranked = Random(seed), [offers[1], offers[0]]
    return found, [picture(random.choice(ranked)), picture(random.choice(ranked)), picture(random.choice(ranked))]


@remembering
@unroll(10)
@opaque("Route.feasible")
def law_best_stateless_draw(h: Service, k: Service, l: Service, seed: int, n: float):
    offers, options = _options(h, k, l, n)
    found = next(BestStatelessInsertionIterator(randomized_size=2, seed=seed, **options))
    return picture(found), picture(Random(seed).choice([offers[1], offers[0]]))


@remembering
@unroll(10)
@opaque("Route.feasible")
@cases("ranks", [True, False])
def law_default_draws(ranks, h: Service, k: Service, l: Service, n: float):
    offers, options = _options(h, k, l, n)
    kind = RankingInsertionIterator if ranks else BestStatelessInsertionIterator
    return picture(next(kind(randomized_size=2, **options))), picture(Random(56).choice([offers[1], offers[0]]))


def _one_pair(n, count, random=None):
    """Stands in for the sampling: what is drawn depends on the route's length, the count and the generator."""
    return [(random.randint(0, n), random.randint(0, count))]


def _asked(self, route, trips, previous_idx=None, following_idx=None, only_feasible=None):
    """Stands in for the insertion itself: the places asked for."""
    return [(route, trips, previous_idx, following_idx, only_feasible)]


@unroll(4)
@model("sample_index_pairs", "_one_pair")
@model("InsertionStrategy.compute", "_asked")
def law_sampling_seed(v: Vehicle, a: Position, b: Position, trip: Trip, only: bool, count: int, seed: int):
    route = Line(v, [a, b], []).route
    strategy, random = SamplingInsertionStrategy(seed=seed), Random(seed)
    found = strategy.compute(route, trip, count, only_feasible=only) + strategy.compute(route, trip, count, only_feasible=only)
    return found, [(route, trip, i, j, only) for i, j in _one_pair(2, count, random) + _one_pair(2, count, random)]


@unroll(4)
@model("sample_index_pairs", "_one_pair")
@model("InsertionStrategy.compute", "_asked")
def law_sampling_default_seed(v: Vehicle, a: Position, b: Position, trip: Trip, only: bool):
    route = Line(v, [a, b], []).route
    return SamplingInsertionStrategy().compute(route, trip, only_feasible=only), [
        (route, trip, i, j, only) for i, j in _one_pair(2, 128, Random(56))]

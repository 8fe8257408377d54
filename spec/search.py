"""Algorithms built from algorithms: what they run, with what, and what they return."""
from jinete.algorithms import (
    Algorithm as _Algorithm,
    GraspAlgorithm,
    InsertionAlgorithm,
    IterativeAlgorithm,
    LocalSearchAlgorithm,
    NaiveAlgorithm,
    ReallocationLocalSearchStrategy,
    SequentialAlgorithm,
)
from typing import Type

from jinete.algorithms import LocalSearchStrategy
from jinete.models import Fleet, Job, Objective, Planning, Result


class _Stub:
    def __init__(self, result, seen, kwargs):
        self.result = result
        seen.append(kwargs)

    def optimize(self):
        return self.result


def _job(objective):
    return Job(set(), lambda: objective)


def _without(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


@opaque("Objective.best")
def law_iterative_best(fleet: Fleet, objective: Objective, a: Result, b: Result, c: Result):
    if a is None or b is None or c is None or objective is None:
        return None, None
    seen = []
    results = [a, b, c]

    def build(**kwargs):
        return _Stub(results.pop(0), seen, kwargs)

    planning = IterativeAlgorithm(episodes=3, algorithm_cls=build, fleet=fleet, job=_job(objective)).optimize().planning
    best = objective.best(objective.best(objective.best(None, a), b), c)
    return (planning, len(seen)), (best.planning, 3)


@opaque("Objective.best")
def law_iterative_restarts(fleet: Fleet, objective: Objective, a: Result, b: Result, extra):
    if a is None or b is None or objective is None:
        return None, None
    seen = []
    results = [a, b]

    def build(**kwargs):
        return _Stub(results.pop(0), seen, kwargs)

    job = _job(objective)
    IterativeAlgorithm(episodes=2, algorithm_cls=build, fleet=fleet, job=job, extra=extra).optimize()
    return ([(k["fleet"], k["job"], k["extra"], "initial" in k, "seed" in k, "episodes" in k) for k in seen], [
        (fleet, job, extra, False, True, False), (fleet, job, extra, False, True, False)])


@opaque("Objective.best")
def law_iterative_continues(fleet: Fleet, objective: Objective, a: Result, b: Result, c: Result):
    if a is None or b is None or c is None or objective is None:
        return None, None
    first, second = objective.best(None, a), objective.best(objective.best(None, a), b)
    if first is None or second is None:
        return None, None
    seen = []
    results = [a, b, c]

    def build(**kwargs):
        return _Stub(results.pop(0), seen, kwargs)

    IterativeAlgorithm(episodes=3, algorithm_cls=build, restart_mode=False, fleet=fleet, job=_job(objective)).optimize()
    return ("initial" in seen[0], seen[1]["initial"], seen[2]["initial"]), (False, first, second)


def law_iterative_defaults(fleet: Fleet, job: Job):
    x = IterativeAlgorithm(fleet=fleet, job=job)
    return (x.episodes, x.algorithm_cls, x.restart_mode, x.fleet, x.job), (3, InsertionAlgorithm, True, fleet, job)


def law_sequential(fleet: Fleet, job: Job, a: Result, b: Result, c: Result, p, q):
    if a is None or b is None or c is None:
        return None, None
    seen = []

    def build_a(**kwargs):
        return _Stub(a, seen, kwargs)

    def build_b(**kwargs):
        return _Stub(b, seen, kwargs)

    planning = SequentialAlgorithm(
        initial=c, algorithms_cls=[(build_a, {"p": p}), (build_b, {"q": q})], fleet=fleet, job=job).optimize().planning
    return (planning, [_without(k, "seed") for k in seen]), (b.planning, [
        {"p": p, "initial": c, "fleet": fleet, "job": job}, {"q": q, "initial": a, "fleet": fleet, "job": job}])


def law_sequential_own_resources(fleet: Fleet, job: Job, fleet2: Fleet, job2: Job, a: Result, seed):
    seen = []

    def build(**kwargs):
        return _Stub(a, seen, kwargs)

    SequentialAlgorithm(
        algorithms_cls=[(build, {"fleet": fleet2, "job": job2, "seed": seed})], fleet=fleet, job=job).optimize()
    return seen, [{"fleet": fleet2, "job": job2, "seed": seed, "initial": None}]


def law_sequential_keeps_options(fleet: Fleet, job: Job, a: Result, p):
    seen = []

    def build(**kwargs):
        return _Stub(a, seen, kwargs)

    options = {"p": p}
    SequentialAlgorithm(algorithms_cls=[(build, options)], fleet=fleet, job=job).optimize()
    return options, {"p": p}


def law_sequential_defaults(fleet: Fleet, job: Job, initial: Result, p):
    x = SequentialAlgorithm(initial=initial, fleet=fleet, job=job, p=p)
    return (x.initial, [c for c, _ in x.algorithms_cls], x.algorithms_cls[0][1], x.algorithms_cls[1][1]), (
        initial, [LocalSearchAlgorithm, InsertionAlgorithm],
        {"fleet": fleet, "job": job, "p": p, "strategy_cls": ReallocationLocalSearchStrategy},
        {"fleet": fleet, "job": job, "p": p})


@opaque("Algorithm.optimize")
def law_grasp(fleet: Fleet, job: Job, p, q):
    x = GraspAlgorithm(first_solution_kwargs={"p": p}, local_search_kwargs={"q": q}, fleet=fleet, job=job)
    reference = IterativeAlgorithm(
        algorithm_cls=SequentialAlgorithm,
        algorithms_cls=[
            (IterativeAlgorithm, {"p": p, "fleet": fleet, "job": job}),
            (IterativeAlgorithm, {"q": q, "fleet": fleet, "job": job, "algorithm_cls": SequentialAlgorithm,
                                  "restart_mode": False, "episodes": 3})],
        fleet=fleet, job=job)
    return x._optimize(), reference.optimize().planning


@opaque("Algorithm.optimize")
def law_grasp_forwards(fleet: Fleet, job: Job, episodes, p):
    x = GraspAlgorithm(fleet=fleet, job=job, episodes=episodes, first_solution_kwargs={"p": p})
    reference = IterativeAlgorithm(
        algorithm_cls=SequentialAlgorithm,
        algorithms_cls=[
            (IterativeAlgorithm, {"p": p, "fleet": fleet, "job": job}),
            (IterativeAlgorithm, {"fleet": fleet, "job": job, "algorithm_cls": SequentialAlgorithm,
                                  "restart_mode": False, "episodes": 3})],
        fleet=fleet, job=job, episodes=episodes)
    return x._optimize(), reference.optimize().planning


def law_optimize(fleet: Fleet, job: Job):
    x = NaiveAlgorithm(fleet, job)
    result = x.optimize()
    return (result.algorithm, result.job, result.fleet, set(result.planning.routes)), (x, job, fleet, set())


def law_naive(fleet: Fleet, job: Job):
    x = NaiveAlgorithm(fleet, job)
    return (x.fleet, x.job), (fleet, job)


@opaque("Objective.best", "Job.objective", "LocalSearchStrategy.improve")
def law_local_search(fleet: Fleet, job: Job, initial: Result, threshold: int, strategy_cls: Type[LocalSearchStrategy]):
    if strategy_cls is None:
        return None, None
    best = initial
    count = 0
    while count < threshold:
        count += 1
        current = strategy_cls(best).improve()
        best = job.objective.best(best, current)
        if best == current:
            count = 0
    return LocalSearchAlgorithm(initial, threshold, strategy_cls, fleet=fleet, job=job).optimize().planning, best.planning


def law_local_search_defaults(fleet: Fleet, job: Job, initial: Result):
    x = LocalSearchAlgorithm(initial, fleet=fleet, job=job)
    return (x.initial, x.no_improvement_threshold, x.strategy_cls, x.fleet, x.job), (
        initial, 1, ReallocationLocalSearchStrategy, fleet, job)


class _Fixed(_Algorithm):
    def __init__(self, planning, fleet, job):
        super().__init__(fleet, job)
        self.planning = planning

    def _optimize(self):
        return self.planning


def law_optimize_planning(fleet: Fleet, job: Job, planning: Planning):
    x = _Fixed(planning, fleet, job)
    result = x.optimize()
    return (set(result.planning.routes), result.planning is planning, result.algorithm is x), (
        set(planning.routes), True, True)

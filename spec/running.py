"""From the solver to the stored result."""
from jinete.dispatchers import Dispatcher as _Dispatcher, StaticDispatcher as _Static
from jinete.algorithms import InsertionAlgorithm as _InsertionAlgorithm
from jinete.loaders import FileLoader as _FileLoader
from jinete.solvers import Solver as _Solver
from jinete.storers import NaiveStorer as _Naive, PromptStorer as _PromptStorer


class StaticDispatcher:
    @effects
    @returns
    def run(self):
        loader = self.loader_cls()
        algorithm = self.algorithm_cls(fleet=loader.fleet, job=loader.job)
        result = algorithm.optimize()
        if self.storer_cls is not None:
            self.storer_cls(result=result).store()
        return result


class Dispatcher:
    @effects
    def __init__(self, loader_cls, algorithm_cls, storer_cls=None):
        self.loader_cls = loader_cls
        self.algorithm_cls = algorithm_cls
        self.storer_cls = _Naive if storer_cls is None else storer_cls


def _tuned(base, kwargs):
    class Tuned(base):
        def __init__(self, *args, **kw):
            super().__init__(*args, **kw, **kwargs)

    return Tuned


class _Custom(_Dispatcher):
    pass


def law_solver(algorithm, algorithm_kwargs, loader, loader_kwargs, storer, storer_kwargs, dispatcher_kwargs):
    dispatcher = _Custom
    solver = _Solver(algorithm, algorithm_kwargs, loader, loader_kwargs, storer, storer_kwargs, dispatcher,
                     dispatcher_kwargs)
    if algorithm_kwargs is None:
        algorithm_kwargs = {}
    if loader_kwargs is None:
        loader_kwargs = {}
    if storer_kwargs is None:
        storer_kwargs = {}
    if dispatcher_kwargs is None:
        dispatcher_kwargs = {}
    return solver.solve(), _tuned(dispatcher, dispatcher_kwargs)(
        _tuned(loader, loader_kwargs), _tuned(algorithm, algorithm_kwargs), _tuned(storer, storer_kwargs)
    ).run()


def law_solver_defaults():
    return _Solver().solve(), _tuned(_Static, {})(
        _tuned(_FileLoader, {}), _tuned(_InsertionAlgorithm, {}), _tuned(_PromptStorer, {})
    ).run()

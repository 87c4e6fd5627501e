"""Operations of the simulated planning service: what its clients can ask for."""
from dst import seams, simpool
from dst.choice import Violation, HarnessError
from dst.world import KINDS

HEURISTICS = ['heft', 'hb', 'topo', 'rtopo', 'lft', 'rlft']


class InjectedFault(Exception):
    """A failure of a user-supplied component (estimator, fitness function)."""


_EST = None


def estimator_class():
    """The user-supplied estimator of a simulated client: the library's default one, whose every
    call takes virtual time and which can be told to fail."""
    global _EST
    if _EST is None:
        from sampo.schemas.time_estimator import DefaultWorkEstimator

        class SimEstimator(DefaultWorkEstimator):
            cost = 0.001
            fail_after = None      # calls until it fails
            calls = 0
            hook = None

            def estimate_time(self, work_unit, worker_list):
                seams.CLOCK.advance(self.cost)
                self.calls += 1
                if self.fail_after is not None:
                    self.fail_after -= 1
                    if self.fail_after < 0:
                        raise InjectedFault(work_unit.id)
                if self.hook is not None:
                    self.hook(work_unit, worker_list)
                return super().estimate_time(work_unit, worker_list)

        SimEstimator.__module__ = __name__
        SimEstimator.__qualname__ = 'SimEstimator'
        globals()['SimEstimator'] = SimEstimator
        _EST = SimEstimator
    return _EST


def sim_estimator(world):
    from dst.world import configure_estimator
    import random
    return configure_estimator(estimator_class()(random.Random(11)), world)


def draw_heuristic(sim, allow=HEURISTICS, ropt=True):
    kind = sim.pick('scheduler', allow)
    cfg = dict(kind=kind)
    if kind in ('rtopo', 'rlft'):
        cfg['seed'] = sim.draw('seed', 1000)
    if ropt and kind in ('heft', 'hb') and sim.flag('ropt', 0.4):
        cfg['ropt'] = sim.pick('ropt', ['avg2', 'avg8', 'avg4', 'avg1.33', 'avg1.14', 'coord', 'full'])
    if ropt and kind == 'heft' and sim.flag('heft-timeline', 0.15):
        cfg['timeline'] = 'momentum'
    return cfg


def draw_ga(sim, max_gens=3, max_pop=10, deadline=False, pool=False, multi=True, lft_only=True):
    cfg = dict(kind='ga',
               sgs=sim.pick('sgs', ['Parallel', 'Serial']),
               gens=sim.draw('gens', max_gens + 1),
               pop=2 + sim.draw('pop', max_pop - 1),
               order=[0.05, 0.3, 1.0, None][sim.draw('mut-order', 4)],
               res=[0.05, 0.3, 1.0, None][sim.draw('mut-res', 4)],
               zones=0.05,
               seed=sim.draw('seed', 100000),
               fitness='time')
    if sim.flag('opt-res', 0.3):
        cfg['opt_res'] = True
        cfg['fitness'] = sim.pick('fitness', ['time', 'peaks', 'sum', 'time+res'])
    if multi and sim.flag('multi', 0.2):
        cfg['multi'] = True
        cfg['fitness'] = 'time&res'
    if lft_only and sim.flag('only-lft', 0.15):
        cfg['only_lft'] = True
    if sim.flag('ga-weights', 0.3):
        cfg['weights'] = [1 + sim.draw('w', 3) for _ in range(7)]
    if pool:
        cfg['pool'] = 1 + sim.draw('cpus', 4)
    return cfg


def make_scheduler(cfg, est):
    import random
    from sampo.scheduler.heft.base import HEFTScheduler, HEFTBetweenScheduler
    from sampo.scheduler.topological.base import TopologicalScheduler, RandomizedTopologicalScheduler
    from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
    from sampo.scheduler.resource import (AverageReqResourceOptimizer, CoordinateDescentResourceOptimizer, FullScanResourceOptimizer,
                                          IdentityResourceOptimizer)
    from sampo.utilities.base_opt import dichotomy_int
    k = cfg['kind']
    kw = dict(work_estimator=est)
    if cfg.get('ropt'):
        r = cfg['ropt']
        kw['resource_optimizer'] = (AverageReqResourceOptimizer({'avg2': 2, 'avg8': 8, 'avg4': 4, 'avg1.33': 4 / 3,
                                                                 'avg1.14': 8 / 7}[r]) if r.startswith('avg')
                                    else CoordinateDescentResourceOptimizer(dichotomy_int) if r == 'coord'
                                    else FullScanResourceOptimizer() if r == 'full'
                                    else IdentityResourceOptimizer())
    if k == 'heft':
        if cfg.get('timeline') == 'momentum':
            from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
            kw['timeline_type'] = MomentumTimeline
        return HEFTScheduler(**kw)
    if k == 'hb':
        return HEFTBetweenScheduler(**kw)
    if k == 'topo':
        return TopologicalScheduler(**kw)
    if k == 'rtopo':
        return RandomizedTopologicalScheduler(est, cfg['seed'])
    if k == 'lft':
        return LFTScheduler(**kw)
    if k == 'rlft':
        return RandomizedLFTScheduler(work_estimator=est, rand=random.Random(cfg['seed']))
    if k == 'ga':
        return make_ga(cfg, est)
    raise HarnessError(k)


def make_fitness(name, cfg=None):
    """The objective of the name; cfg may name the kinds that count and the deadline of the objective itself."""
    from sampo.scheduler.genetic import operators as o
    from sampo.schemas.time import Time
    cfg = cfg or {}
    names = (iter(cfg['fit_names']) if cfg.get('fit_once') else list(cfg['fit_names'])) if cfg.get('fit_names') is not None else None
    return {'time': lambda: (o.TimeFitness(), (-1,)),
            'peaks': lambda: (o.SumOfResourcesPeaksFitness(names), (-1,)),
            'sum': lambda: (o.SumOfResourcesFitness(names), (-1,)),
            'time+res': lambda: (o.TimeWithResourcesFitness(names), (-1,)),
            'dl-res': lambda: (o.DeadlineResourcesFitness(Time(cfg['fit_deadline']), names), (-1,)),
            'dl-cost': lambda: (o.DeadlineCostFitness(Time(cfg['fit_deadline']), names), (-1,)),
            'time&res': lambda: (o.TimeAndResourcesFitness(names), (-1, -1))}[name]()


def draw_objective(sim, cfg):
    """Another objective for a search with one objective, and the kinds that count."""
    if not cfg.get('multi') and sim.flag('objective', 0.5):
        cfg['fitness'] = sim.pick('fitness', ['time', 'peaks', 'sum', 'time+res', 'dl-res', 'dl-cost'])
        if cfg['fitness'].startswith('dl-'):
            cfg['fit_deadline'] = 1 + sim.draw('fit-deadline', 120)
    if cfg['fitness'] != 'time' and sim.flag('fit-names', 0.25):
        cfg['fit_names'] = [k for k in KINDS if sim.flag('fit-name', 0.5)]
        cfg['fit_once'] = sim.flag('fit-once', 0.5)
    return cfg


def make_ga(cfg, est, fitness=None):
    import random
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.api.genetic_api import ScheduleGenerationScheme
    fit, weights = make_fitness(cfg.get('fitness', 'time'), cfg)
    if fitness is not None:
        fit = fitness(fit)
    g = GeneticScheduler(number_of_generation=cfg['gens'], size_of_population=cfg['pop'],
                         mutate_order=cfg['order'], mutate_resources=cfg['res'], mutate_zones=cfg['zones'],
                         rand=random.Random(cfg['seed']), work_estimator=est,
                         sgs_type=ScheduleGenerationScheme(cfg['sgs']),
                         fitness_constructor=fit, fitness_weights=weights,
                         weights=list(cfg['weights']) if cfg.get('weights') else None,
                         optimize_resources=cfg.get('opt_res', False),
                         is_multiobjective=cfg.get('multi', False),
                         only_lft_initialization=cfg.get('only_lft', False))
    if cfg.get('deadline') is not None:
        from sampo.schemas.time import Time
        g.set_deadline(Time(cfg['deadline']))
    if cfg.get('plateau') is not None:
        g.set_max_plateau_steps(cfg['plateau'])
    if cfg.get('border') is not None:
        g.set_time_border(cfg['border'])
    return g


class backend:
    """Selects the computational backend for a block, as a client would."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        from sampo.base import SAMPO
        self.old = SAMPO.backend
        if self.n:
            from sampo.backend.multiproc import MultiprocessingComputationalBackend
            SAMPO.backend = MultiprocessingComputationalBackend(self.n)
        else:
            from sampo.backend.default import DefaultComputationalBackend
            SAMPO.backend = DefaultComputationalBackend()
        return SAMPO.backend

    def __exit__(self, *a):
        from sampo.base import SAMPO
        SAMPO.backend = self.old


def describe(cfg):
    return ','.join(f'{k}={v}' for k, v in cfg.items())


def plan(cfg, problem, start=0, timeline=None, validate=False, scheduler=None):
    """One call to the library; returns its list of schedules."""
    from sampo.schemas.time import Time
    kw = {}
    if timeline is not None:
        kw['timeline'] = timeline
    if getattr(problem, 'landscape', None) is not None:
        kw['landscape'] = problem.landscape
    if cfg['kind'] == 'search':
        # the search for the fewest resources that keep a deadline
        from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
        base = make_scheduler(dict(kind=cfg['base']), problem.estimator)
        (schedule, *_), _ = AverageBinarySearchResourceOptimizingScheduler(base).schedule_with_cache(
            problem.wg, problem.contractors, Time(cfg['deadline']), problem.spec, validate, Time(start),
            **{k: v for k, v in kw.items() if k == 'landscape'})
        return [schedule]
    s = scheduler if scheduler is not None else make_scheduler(cfg, problem.estimator)
    if cfg.get('pool'):
        with backend(cfg['pool']):
            return s.schedule(problem.wg, problem.contractors, spec=problem.spec, validate=validate,
                              start_time=Time(start), **kw)
    return s.schedule(problem.wg, problem.contractors, spec=problem.spec, validate=validate,
                      start_time=Time(start), **kw)


def plan_full(cfg, problem, start=0, timeline=None, scheduler=None):
    from sampo.schemas.time import Time
    kw = {}
    if timeline is not None:
        kw['timeline'] = timeline
    if getattr(problem, 'landscape', None) is not None:
        kw['landscape'] = problem.landscape
    if cfg['kind'] == 'search':
        from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
        base = make_scheduler(dict(kind=cfg['base']), problem.estimator)
        answer, _ = AverageBinarySearchResourceOptimizingScheduler(base).schedule_with_cache(
            problem.wg, problem.contractors, Time(cfg['deadline']), problem.spec, assigned_parent_time=Time(start))
        return [answer]
    s = scheduler if scheduler is not None else make_scheduler(cfg, problem.estimator)
    return s.schedule_with_cache(problem.wg, problem.contractors, spec=problem.spec,
                                 assigned_parent_time=Time(start), **kw)


def raise_findings(prefix, findings, known=()):
    for sig, msg in findings:
        raise Violation(f'{prefix}{sig}', msg)

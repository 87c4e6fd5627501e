"""P24: the hybrid search, a cycle of population schedulers."""
from dst import ops, seams, simpool
from dst.choice import Violation
from dst.isolate import attempt, isolated
from dst.oracle import check_schedule, feasible_exists
from dst.props import register
from dst.props.feasibility import disturb, environment
from dst.props.genetic import makespan, own_fitness
from dst.props.service import describe_outcome, outcome_of, same
from dst.world import Problem, Profile, gen_world

PARTS = ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity', 'duration', 'spec')


class Endless(Exception):
    pass


def draw_hybrid(sim):
    ga = lambda: dict(kind='ga', sgs=sim.pick('ga-sgs', ['Parallel', 'Serial']), gens=1 + sim.draw('gens', 4),
                      pop=2 + sim.draw('pop', 7), order=[0.3, 0.05, 1.0][sim.draw('order', 3)],
                      res=[0.3, 0.05, 1.0][sim.draw('res', 3)], zones=0.05, seed=sim.draw('seed', 100000),
                      fitness=['time', 'time', 'peaks', 'sum'][sim.draw('ga-fit', 4)])
    step = lambda: ga() if sim.flag('ga-step', 0.7) else dict(kind='client', how=sim.pick('how', [
        'same', 'lose-best', 'turn', 'fresh', 'best-only']))
    return dict(heur=[sim.pick('heur', ['heft', 'hb', 'topo', 'lft']) for _ in range(1 + sim.draw('heurs', 3))],
                cycle=[step() for _ in range(sim.weighted('steps', 4, 0.2))],
                fitness=['time', 'time+res', 'peaks', 'sum', 'time&res'][sim.weighted('fit', 5, 0.5)],
                sgs=sim.pick('sgs', ['Parallel', 'Serial']),
                plateau=1 + sim.draw('plateau', 3))


class Observed:
    """What the client sees of the search: the populations handed from scheduler to scheduler. Their worth is computed here."""

    def __init__(self, sim, cfg, pr, start, fail_at=None):
        self.cfg, self.pr, self.start = cfg, pr, start
        self.best = []                # the best value of the first population and of every cycle
        self.values = []
        self.cycles = 0
        self.fail_at = fail_at
        self.toolbox = None

    def worth(self, pop):
        from sampo.api.genetic_api import ScheduleGenerationScheme
        from sampo.scheduler.genetic.schedule_builder import create_toolbox
        from sampo.schemas.time import Time
        if self.toolbox is None:
            self.toolbox = create_toolbox(wg=self.pr.wg, contractors=self.pr.contractors, spec=self.pr.spec,
                                          assigned_parent_time=Time(self.start),
                                          sgs_type=ScheduleGenerationScheme(self.cfg['sgs']), verbose=False)
        vs = []
        for ind in pop:
            s = self.toolbox.evaluate_chromosome(ind)
            vs.append((float('inf'),) if s is None else own_fitness(self.cfg['fitness'], s))
        return vs

    def arrived(self, pop):
        vs = self.worth(pop)
        self.values += vs
        self.best.append(min(vs))
        return pop

    def fruitless(self):
        n, best = 0, None
        for b in self.best:
            if best is None or b < best:
                best, n = b, 0
            else:
                n += 1
        return n

    def build(self):
        from sampo.hybrid.cycle import CycleHybridScheduler
        from sampo.hybrid.population import GeneticPopulationScheduler, HeuristicPopulationScheduler, PopulationScheduler
        obs = self

        class First(PopulationScheduler):
            def __init__(self, inner):
                self.inner = inner

            def schedule(self, pop, *a, **k):
                return obs.arrived(self.inner.schedule(pop, *a, **k))

        class Step(PopulationScheduler):
            def __init__(self, inner, first, last):
                self.inner, self.first, self.last = inner, first, last

            def schedule(self, pop, *a, **k):
                if self.first:
                    if obs.fruitless() >= obs.cfg['plateau']:
                        raise Endless(f'a cycle started after {obs.fruitless()} fruitless ones')
                    obs.cycles += 1
                    if obs.fail_at == obs.cycles:
                        raise ops.InjectedFault('population scheduler')
                pop = self.inner.schedule(pop, *a, **k)
                return obs.arrived(pop) if self.last else pop

        class Client(PopulationScheduler):
            """A scheduler of the client that does not care for the best individual."""

            def __init__(self, how):
                self.how = how

            def schedule(self, pop, wg, contractors, *a, **k):
                pop = list(pop)
                if self.how == 'fresh':
                    return heur().schedule(pop, wg, contractors, *a, **k)
                if self.how == 'turn':
                    return pop[::-1]
                if self.how == 'same' or len(pop) < 2:
                    return pop
                vs = obs.worth(pop)
                best = vs.index(min(vs))
                return [pop[best]] if self.how == 'best-only' else pop[:best] + pop[best + 1:]

        def heur():
            return HeuristicPopulationScheduler([ops.make_scheduler(dict(kind=h), obs.pr.estimator) for h in obs.cfg['heur']])

        steps = []
        n = len(self.cfg['cycle'])
        for i, c in enumerate(self.cfg['cycle'] or [dict(kind='client', how='same')]):
            inner = GeneticPopulationScheduler(ops.make_ga(c, self.pr.estimator)) if c['kind'] == 'ga' else Client(c['how'])
            steps.append(Step(inner, i == 0, i >= n - 1))
        return CycleHybridScheduler(First(heur()), steps, fitness=ops.make_fitness(self.cfg['fitness'])[0],
                                    max_plateau_size=self.cfg['plateau'])


def ask(hybrid, cfg, pr, start):
    from sampo.api.genetic_api import ScheduleGenerationScheme
    from sampo.schemas.time import Time
    with ops.backend(cfg.get('pool')):
        return hybrid.schedule(pr.wg, pr.contractors, pr.spec, Time(start), ScheduleGenerationScheme(cfg['sgs']))


@register('P24')
def p24(sim):
    """The hybrid search ends, returns the best individual its populations had, and depends on nothing else."""
    p = Profile()
    p.max_macros = 10 if sim.flag('big', 0.15) else 6
    p.spec = sim.flag('spec-on', 0.3)
    world = gen_world(sim, p)
    world['productivity'] = []        # the hybrid search knows the default estimator only
    cfg = draw_hybrid(sim)
    if sim.flag('pool', 0.15):
        cfg['pool'] = 1 + sim.draw('cpus', 4)
    start = sim.weighted('start', 20, 0.6)
    feasible = feasible_exists(world)

    def alone():
        pr = Problem(world)
        obs = Observed(sim, cfg, pr, start)
        return outcome_of([ask(obs.build(), cfg, pr, start)])

    ref = isolated(alone) if sim.flag('compared', 0.5) else None
    environment(sim)
    pr = Problem(world, ops.sim_estimator(world))
    problems = [pr]
    for k in range(sim.weighted('before', 3, 0.4)):
        disturb(sim, problems, k)
    simpool.CONFIG['restart'] = 0.1 if sim.flag('restarts', 0.3) else 0.0
    obs = Observed(sim, cfg, pr, start)
    what = f'{cfg} start={start}: '
    hybrid = obs.build()
    if sim.flag('fails-first', 0.25):
        obs.fail_at = 1 + sim.draw('fail-at', 3)
        try:
            ask(hybrid, cfg, pr, start)
        except ops.InjectedFault:
            sim.fault('failing population scheduler')
        except Exception as e:
            sim.event('the first attempt failed', type(e).__name__)
        # random generators of the evolutionary schedulers have moved on
        obs = Observed(sim, cfg, pr, start)
        hybrid = obs.build()
    try:
        s = ask(hybrid, cfg, pr, start)
    except Endless as e:
        raise Violation('hybrid/endless', f'{what}{e}: best values {obs.best}')
    except Exception as e:
        sim.event('hybrid', cfg, 'start', start, '->', type(e).__name__, str(e)[:150])
        sim.meta['nontrivial'] = False
        if not feasible:
            return
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('hybrid/crash', f'{what}{type(e).__name__}: {str(e)[:200]} at {tb.filename.split("/")[-1]}:{tb.name}')
    got = own_fitness(cfg['fitness'], s)
    sim.event('hybrid', cfg, 'start', start, 'best of cycles', obs.best, '->', got)
    sim.state((cfg['fitness'], cfg['sgs'], len(cfg['cycle']), tuple(obs.best)))
    sim.probe('cycles', obs.cycles)
    sim.probe('individuals judged', len(obs.values))
    out = sim.meta.setdefault('outcome', {})
    key = 'improved' if min(obs.best) < obs.best[0] else 'not improved'
    out[key] = out.get(key, 0) + 1
    sim.meta['nontrivial'] = obs.cycles > 1 and len(world['works']) > 1
    if got != min(obs.values):
        raise Violation('hybrid/best', f'{what}returned a plan worth {got}, populations had {obs.best}')
    if obs.fruitless() < cfg['plateau']:
        raise Violation('hybrid/early', f'{what}stopped after {obs.fruitless()} fruitless cycles: {obs.best}')
    f = check_schedule(world, pr.wg, s, start, PARTS)
    ops.raise_findings('hybrid/', [(a, what + b) for a, b in f])
    if ref is not None:
        d = same(ref, attempt(lambda: outcome_of([s])))
        if d:
            raise Violation('hybrid/history', f'{what}a fresh service answers otherwise: {d}')

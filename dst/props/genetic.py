"""P09-P14: the evolutionary search - reproducibility, optimality bookkeeping, budget, deadline, worker processes."""
from dst import ops, seams, simpool, snapshot
from dst.choice import HarnessError, Violation
from dst.isolate import attempt, isolated
from dst.oracle import check_schedule, canonical, sched_rows
from dst.props import register
from dst.props.feasibility import environment
from dst.props.service import describe_outcome, outcome_of, same, small
from dst.world import Problem, gen_world, make_graph


def observing_backend(n, seen, load=None):
    """A computational backend as a client may supply it: delegates and reports every evaluated generation."""
    from sampo.backend.default import DefaultComputationalBackend
    from sampo.backend.multiproc import MultiprocessingComputationalBackend
    base = MultiprocessingComputationalBackend if n else DefaultComputationalBackend

    class Observing(base):
        def compute_chromosomes(self, fitness, chromosomes):
            t0 = seams.CLOCK.now
            res = super().compute_chromosomes(fitness, chromosomes)
            if load is not None:
                load(len(seen))
            seen.append(dict(kind='evaluate', fitness=type(fitness).__name__, n=len(chromosomes),
                             values=[tuple(v) for v in res], at=t0, until=seams.CLOCK.now))
            return res

        def cache_scheduler_info(self, *a, **k):
            seen.append(dict(kind='prepare', at=seams.CLOCK.now))
            return super().cache_scheduler_info(*a, **k)

        def generate_first_population(self, size):
            res = super().generate_first_population(size)
            seen.append(dict(kind='population', n=len(res), asked=size))
            return res

    return Observing(n) if n else Observing()


class use_backend:
    def __init__(self, b):
        self.b = b

    def __enter__(self):
        from sampo.base import SAMPO
        self.old, SAMPO.backend = SAMPO.backend, self.b
        return self.b

    def __exit__(self, *a):
        from sampo.base import SAMPO
        SAMPO.backend = self.old


def peaks(schedule, names=None):
    """Sum over kinds of the highest number of specialists busy at once."""
    rows = sched_rows(schedule)
    points = sorted({r['start'] for r in rows} | {r['finish'] for r in rows})
    use = {}
    for r in rows:
        for k, n, c in r['workers']:
            if names is not None and k not in names:
                continue
            for i, p in enumerate(points):
                if r['start'] <= p < r['finish']:
                    use.setdefault(k, {}).setdefault(p, 0)
                    use[k][p] += n
            use.setdefault(k, {})
    return sum(max(v.values(), default=0) for v in use.values())


def man_hours(schedule, names=None):
    return sum(n * (r['finish'] - r['start']) for r in sched_rows(schedule) for k, n, c in r['workers']
               if names is None or k in names)


def price(schedule, names=None):
    return sum(float(x.cost_one_unit) * int(x.count) * (int(w.finish_time) - int(w.start_time))
               for w in schedule.works for x in w.workers if names is None or x.name in names)


def makespan(schedule):
    return max(r['finish'] for r in sched_rows(schedule))


def own_fitness(cfg, s):
    if isinstance(cfg, str):
        cfg = dict(fitness=cfg)
    names = cfg.get('fit_names')
    late = max(1.0, makespan(s) / cfg['fit_deadline']) if cfg.get('fit_deadline') else 1.0
    return {'time': lambda: (makespan(s),),
            'peaks': lambda: (peaks(s, names),),
            'sum': lambda: (man_hours(s, names),),
            'time+res': lambda: (makespan(s) + peaks(s, names),),
            'dl-res': lambda: (peaks(s, names) * late,),
            'dl-cost': lambda: (price(s, names) * late,),
            'time&res': lambda: (makespan(s), peaks(s, names))}[cfg['fitness']]()


def equal(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))


def size_limits(cfg, world):
    if len(world['works']) > 12:
        cfg['gens'] = min(cfg['gens'], 2)
        cfg['pop'] = min(cfg['pop'], 6)
    return cfg


def run_ga(sim, cfg, pr, start, seen, fitness=None, load=None):
    from sampo.schemas.time import Time
    g = ops.make_ga(cfg, pr.estimator, fitness)
    with use_backend(observing_backend(cfg.get('pool') or 0, seen, load)):
        return g.schedule(pr.wg, pr.contractors, spec=pr.spec, start_time=Time(start))


# ------------------------------------------------------------------ P09
@register('P09')
def p09(sim):
    """Equal seeds give equal answers, whatever the clock, the entropy of the machine, the load of the pool workers
    and (compared by the runner) the hash seed of the process."""
    world = gen_world(sim, small(sim))
    what = sim.weighted('what', 5, 0.45)
    if what == 0:
        cfg = size_limits(ops.draw_ga(sim, pool=sim.flag('pool', 0.35)), world)
        if sim.flag('with-deadline', 0.25):
            cfg['deadline'] = 1 + sim.draw('deadline', 150)
        if sim.flag('plateau', 0.2):
            cfg['plateau'] = 1 + sim.draw('plateau', 3)
    elif what == 1:
        cfg = ops.draw_heuristic(sim, ['rtopo', 'rlft'])
    elif what == 2:
        cfg = ops.draw_heuristic(sim)
    elif what == 3:
        return generated(sim)
    else:
        cfg = dict(kind='binary', base=sim.pick('base', ['heft', 'hb']), deadline=1 + sim.draw('deadline', 150))
    start = sim.weighted('start', 20, 0.7)
    stochastic = sim.flag('stochastic', 0.15) and not cfg.get('pool')

    def go():
        from sampo.schemas.resources import WorkerProductivityMode
        pr = Problem(world, ops.sim_estimator(world))
        if stochastic:
            from sampo.schemas.interval import IntervalGaussian
            pr.estimator.set_productivity_mode(WorkerProductivityMode.Stochastic)
            for k in world['kinds']:
                pr.estimator.set_worker_productivity(IntervalGaussian(1.0, 0.2, 0.6, 1.6), k)
        if cfg['kind'] == 'binary':
            from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
            from sampo.schemas.time import Time
            s = AverageBinarySearchResourceOptimizingScheduler(ops.make_scheduler(dict(kind=cfg['base']), pr.estimator))
            (sched, _, _, _), spec = s.schedule_with_cache(pr.wg, pr.contractors, Time(cfg['deadline']), pr.spec,
                                                           assigned_parent_time=Time(start))
            return outcome_of([sched])
        return outcome_of(ops.plan(cfg, pr, start))

    ref = isolated(go)
    environment(sim)
    seams.ENTROPY.reset(f'other machine {sim.draw("entropy", 1000)}')
    import random
    random.seed(seams.ENTROPY.next())
    if sim.flag('slow-clock', 0.3):
        seams.CLOCK.tick = [0.5, 30.0][sim.draw('tick', 2)]
    simpool.CONFIG['restart'] = 0.1 if sim.flag('restarts', 0.3) else 0.0
    got = attempt(go)
    sim.event('request', ops.describe(cfg), 'start', start, 'stochastic', stochastic, '->', describe_outcome(got))
    sim.event(repr(got))
    sim.state((cfg['kind'], cfg.get('sgs'), bool(cfg.get('pool')), describe_outcome(got)))
    d = same(ref, got)
    if d:
        raise Violation(f'reproducible/{cfg["kind"]}{"-pool" if cfg.get("pool") else ""}',
                        f'{ops.describe(cfg)} start={start}: the same request with the same seed gave another answer: {d}')
    out = sim.meta.setdefault('outcome', {})
    out[cfg['kind'] + ' ' + got[0]] = out.get(cfg['kind'] + ' ' + got[0], 0) + 1
    sim.meta['nontrivial'] = len(world['works']) > 1 and got[0] == 'ok'


def generated(sim):
    """Synthetic projects and contractors are a function of their seed."""
    from sampo.generator.base import SimpleSynthetic
    seed = sim.draw('gseed', 1000)
    mode = sim.draw('mode', 5)
    n = 10 + sim.draw('size', 60)

    def go():
        from sampo.generator import SyntheticGraphType
        ss = SimpleSynthetic(seed)
        if mode == 0:
            wg = ss.small_work_graph()
        elif mode == 1:
            wg = ss.work_graph(mode=SyntheticGraphType.GENERAL, cluster_counts=1 + n % 4, bottom_border=n)
        elif mode == 2:
            wg = ss.work_graph(mode=SyntheticGraphType.SEQUENTIAL, bottom_border=n, top_border=n + 20)
        elif mode == 3:
            wg = ss.work_graph(mode=SyntheticGraphType.PARALLEL, bottom_border=n, top_border=n + 20)
        else:
            wg = ss.advanced_work_graph(20 + n, 5 + n // 3, 4 + n // 5)
        cs = [ss.contractor(size) for size in (5, 20)]
        return [snapshot.graph(wg), snapshot.contractors(cs)]

    ref = isolated(go)
    environment(sim)
    seams.ENTROPY.reset(f'other machine {sim.draw("entropy", 1000)}')
    got = attempt(go)
    sim.event('generate', seed, mode, n, '->', got[0], hash_of(got))
    d = None if ref == got else (snapshot.diff(ref[1], got[1], 'generated') if ref[0] == got[0] == 'ok' else 'differ')
    if d:
        raise Violation('reproducible/generator', f'seed {seed} mode {mode} size {n}: {d}')
    sim.meta['nontrivial'] = got[0] == 'ok'


def hash_of(x):
    import hashlib
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


# ------------------------------------------------------------------ P10
@register('P10')
def p10(sim):
    """The answer is the best of everything the search evaluated, and is worth what the search believed."""
    environment(sim)
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    cfg = ops.draw_objective(sim, size_limits(ops.draw_ga(sim, 4, 10, pool=sim.flag('pool', 0.2)), world))
    start = sim.weighted('start', 20, 0.7)
    if cfg['fitness'] != 'time' and not cfg.get('multi') and sim.flag('with-deadline', 0.3):
        cfg['deadline'] = start + 1 + sim.draw('deadline', 150)
    simpool.CONFIG['restart'] = 0.1 if sim.flag('restarts', 0.3) else 0.0
    seen = []
    try:
        ss = run_ga(sim, cfg, pr, start, seen)
    except Exception as e:
        sim.event('request', ops.describe(cfg), type(e).__name__)
        sim.meta['nontrivial'] = False
        return
    # with a deadline only the candidates that are judged by the objective compete in it
    evs = [g for g in seen if g['kind'] == 'evaluate']
    if cfg.get('deadline') is not None:
        evs = [g for g in evs if g['fitness'] != 'TimeFitness']
    values = [v for g in evs for v in g['values']]
    got = [own_fitness(cfg, s) for s in ss]
    sim.event('request', ops.describe(cfg), 'evaluated', len(values), 'best', min(values), 'returned', got)
    sim.state((cfg['fitness'], cfg['sgs'], min(values), len(values)))
    sim.probe('evaluated schedules', len(values))
    sim.meta['nontrivial'] = len(values) > 1 and len(world['works']) > 1
    if not ss:
        raise Violation('best/none', f'{ops.describe(cfg)}: nothing returned')
    for v, s in zip(got, ss):
        if not any(equal(v, o) for o in values):
            raise Violation('best/not-evaluated', f'{ops.describe(cfg)}: returned a schedule worth {v}, '
                                                  f'never evaluated (best evaluated {min(values)})')
        for o in values:
            if not equal(o, v) and all(a <= b for a, b in zip(o, v)):
                raise Violation('best/dominated', f'{ops.describe(cfg)}: returned {v} although {o} was evaluated')
    if cfg.get('multi'):
        # the whole front is returned
        front = {o for o in values if not any(q != o and all(a <= b for a, b in zip(q, o)) for q in values)}
        if set(got) != front:
            raise Violation('best/front', f'{ops.describe(cfg)}: returned {sorted(set(got))}, evaluated front {sorted(front)}')
    for s in ss:
        f = check_schedule(world, pr.wg, s, start, ('complete', 'precedence', 'capacity'))
        ops.raise_findings('best/', [(a, f'{ops.describe(cfg)}: {b}') for a, b in f])


# ------------------------------------------------------------------ P11
@register('P11')
def p11(sim):
    """The search ends within its budget of generations, time and fruitless generations."""
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    cfg = size_limits(ops.draw_ga(sim, 6, 8, multi=True), world)
    cfg['pop'] = min(cfg['pop'], 6)
    budget = sim.draw('budget', 3)
    jumps = False
    if budget == 1:
        cfg['plateau'] = 1 + sim.draw('plateau', 3)
    if budget == 2:
        cfg['border'] = [0.05, 0.5, 1.0, 5.0][sim.draw('border', 4)]
    if sim.flag('with-deadline', 0.35):
        cfg['deadline'] = 1 + sim.draw('deadline', 150)
    staged = cfg.get('deadline') is not None and not cfg.get('opt_res')
    if staged and cfg['fitness'] == 'time':
        cfg['fitness'] = sim.pick('fitness', ['peaks', 'sum', 'time+res'])
    if budget != 2 and sim.flag('jump', 0.5):
        jumps = True
        environment_jumps(sim)
    # how long the machine is busy with one generation
    busy = [0.0, 0.01, 0.2, 0.7, 3.0][sim.draw('busy', 5)]
    stall = sim.flag('stall', 0.3)
    pr.estimator.cost = 0.0
    start = sim.weighted('start', 20, 0.7)
    seen = []

    def load(i):
        dt = busy
        if stall and sim.flag('stalled', 0.2):
            dt += 10.0
            sim.fault('stalled evaluation')
        seams.CLOCK.advance(dt)

    try:
        ss = run_ga(sim, cfg, pr, start, seen, load=load)
    except Exception as e:
        sim.event('request', ops.describe(cfg), type(e).__name__)
        sim.meta['nontrivial'] = False
        return
    evs = [g for g in seen if g['kind'] == 'evaluate']
    pops = [g for g in seen if g['kind'] == 'population']
    began = next(g['at'] for g in seen if g['kind'] == 'prepare')
    sim.event('request', ops.describe(cfg), 'busy', busy, 'evaluations', [(g['fitness'], g['n']) for g in evs])
    sim.state((cfg['gens'], cfg.get('plateau'), cfg.get('border'), staged, len(evs)))
    sim.meta['nontrivial'] = len(evs) > 1
    for p in pops:
        if p['n'] != p['asked'] or p['n'] != cfg['pop']:
            raise Violation('budget/population', f'{ops.describe(cfg)}: first population of {p["n"]}')
    if any(g['n'] > 2 * cfg['pop'] for g in evs):
        raise Violation('budget/offspring', f'{ops.describe(cfg)}: {[g["n"] for g in evs]} offspring')
    # split into generations: (first evaluation, last evaluation, best value)
    first = [g for g in evs if not staged or g['fitness'] == 'TimeFitness']
    if not staged:
        gens = [(g, g) for g in evs[1:]]
        stages = [evs]
    else:
        cut = next((i for i, g in enumerate(evs) if g['fitness'] != 'TimeFitness'), len(evs))
        one, two = evs[:cut], evs[cut:]
        gens = [(g, g) for g in one[1:]] + [(two[i], two[i + 1]) for i in range(1, len(two) - 1, 2)]
        stages = [one]
        if any(g['fitness'] == 'TimeFitness' for g in two[2::2]) or len(two) % 2 == 0:
            raise HarnessError(f'unexpected sequence of evaluations {[(g["fitness"], g["n"]) for g in evs]}')
    if len(gens) > cfg['gens']:
        raise Violation('budget/generations', f'{ops.describe(cfg)}: {len(gens)} generations')
    tiny = 1e-3
    over = False
    if cfg.get('border') is not None:
        # a generation does not start once the time is over
        before = [evs[0]] + [b for a, b in gens]
        for prev, (g, _) in zip(before, gens):
            if prev['until'] - began >= cfg['border'] + tiny:
                raise Violation('budget/time', f'{ops.describe(cfg)}: a generation started {prev["until"] - began:.3f} s '
                                               f'after the start of the search, border {cfg["border"]}')
        over = evs[-1]['until'] - began >= cfg['border'] - tiny
    if cfg['fitness'] != 'time&res' or staged:
        allowed = cfg['gens'] if not staged else cfg['gens'] // 2
        patience = cfg['plateau'] if cfg.get('plateau') is not None else allowed
        evs1 = stages[0]
        best, steps = None, 0
        for i, g in enumerate(evs1):
            b = min(g['values'])
            if best is None or b < best:
                best, steps = b, 0
            else:
                steps += 1
            if steps >= patience and i + 1 < len(evs1):
                raise Violation('budget/plateau', f'{ops.describe(cfg)}: went on after {steps} generations without progress')
        met = staged and best[0] <= cfg['deadline']
        if len(evs1) - 1 < allowed and steps < patience and not over and not met:
            raise Violation('budget/early', f'{ops.describe(cfg)}: stopped after {len(evs1) - 1} generations of {allowed}, '
                                            f'{steps} without progress')
    if not ss:
        raise Violation('budget/none', f'{ops.describe(cfg)}: a search out of budget returned nothing')


def environment_jumps(sim):
    for _ in range(1 + sim.draw('njumps', 3)):
        seams.CLOCK.jumps[1 + sim.draw('jump-at', 60)] = [-3600.0, 3600.0, -1.0, 1.0, 86400.0][sim.draw('jump', 5)]
    seams.CLOCK.on_read = lambda j: sim.fault('clock jump')


# ------------------------------------------------------------------ P12
@register('P12')
def p12(sim):
    """If the search has met the deadline, everything it returns meets it."""
    environment(sim)
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    start = sim.weighted('start', 20, 0.8)
    if sim.flag('binary', 0.3):
        return p12_binary(sim, world, pr, start)
    cfg = size_limits(ops.draw_ga(sim, 6, 8, pool=sim.flag('pool', 0.15)), world)
    cfg.pop('opt_res', None)
    if cfg['fitness'] == 'time' and sim.flag('res-fitness', 0.8):
        cfg['fitness'] = sim.pick('fitness', ['peaks', 'sum', 'time+res'])
        ops.draw_objective(sim, cfg)
    # a deadline around what heuristics reach
    ref = isolated(lambda: max(w[2] for w in outcome_of(ops.plan(dict(kind='heft'), Problem(world), start))[0]))
    if ref[0] != 'ok':
        sim.meta['nontrivial'] = False
        return
    span = ref[1] - start
    cfg['deadline'] = start + max(1, span * [10, 12, 15, 9, 20, 8][sim.draw('deadline', 6)] // 10)
    seen = []
    try:
        ss = run_ga(sim, cfg, pr, start, seen)
    except Exception as e:
        sim.event('request', ops.describe(cfg), type(e).__name__)
        sim.meta['nontrivial'] = False
        return
    evs = [g for g in seen if g['kind'] == 'evaluate']
    first = evs[0]
    stage1 = []
    for g in evs:
        if g['fitness'] != 'TimeFitness':
            break
        stage1.append(g)
    times = [v[0] for g in stage1 for v in g['values']]
    got = [makespan(s) for s in ss]
    met = min(times) <= cfg['deadline']
    sim.event('request', ops.describe(cfg), 'start', start, 'stage-1 best', min(times), 'returned', got)
    sim.state((cfg['fitness'], met, cfg['deadline'], tuple(got)))
    out = sim.meta.setdefault('outcome', {})
    out['met' if met else 'missed'] = out.get('met' if met else 'missed', 0) + 1
    sim.meta['nontrivial'] = met
    if met and any(t > cfg['deadline'] for t in got):
        raise Violation('deadline/broken', f'{ops.describe(cfg)} start={start}: deadline {cfg["deadline"]}, evaluated '
                                           f'{min(times)}, returned {got}')
    if not met and any(t > min(times) for t in got):
        raise Violation('deadline/not-fastest', f'{ops.describe(cfg)} start={start}: deadline {cfg["deadline"]} cannot be '
                                                f'met, fastest evaluated {min(times)}, returned {got}')
    for s in ss:
        f = check_schedule(world, pr.wg, s, start, ('complete', 'precedence', 'capacity', 'spec'))
        ops.raise_findings('deadline/', [(a, f'{ops.describe(cfg)}: {b}') for a, b in f])


def p12_binary(sim, world, pr, start):
    from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
    from sampo.schemas.time import Time
    base = sim.pick('base', ['heft', 'hb'])
    ref = isolated(lambda: max(w[2] for w in outcome_of(ops.plan(dict(kind=base), Problem(world), start))[0]))
    if ref[0] != 'ok':
        sim.meta['nontrivial'] = False
        return
    span = ref[1] - start
    deadline = start + max(1, span * [10, 12, 15, 9, 30, 8][sim.draw('deadline', 6)] // 10)
    tried = []
    inner = ops.make_scheduler(dict(kind=base), pr.estimator)
    real = inner.schedule_with_cache

    def observed(*a, **k):
        r = real(*a, **k)
        tried.append(makespan(r[0][0]))
        return r
    inner.schedule_with_cache = observed
    s = AverageBinarySearchResourceOptimizingScheduler(inner)
    (sched, _, _, _), spec = s.schedule_with_cache(pr.wg, pr.contractors, Time(deadline), pr.spec,
                                                   assigned_parent_time=Time(start))
    got = makespan(sched)
    sim.event('resource search', base, 'start', start, 'deadline', deadline, 'tried', tried, 'returned', got)
    sim.state(('binary', base, deadline, got))
    met = min(tried) <= deadline
    sim.meta['nontrivial'] = met
    if met and got > deadline:
        raise Violation('deadline/search-broken', f'{base}: deadline {deadline}, reached {min(tried)}, returned {got}')
    f = check_schedule(world, pr.wg, sched, start, ('complete', 'precedence', 'capacity', 'spec', 'duration'))
    ops.raise_findings('deadline/', [(a, f'{base} to deadline {deadline}: {b}') for a, b in f])


# ------------------------------------------------------------------ P13
class FailingFitness:
    """Built lazily: a client's fitness function that fails on one candidate."""

    @staticmethod
    def make(inner, bad):
        from sampo.api.genetic_api import FitnessFunction

        class Failing(FitnessFunction):
            def evaluate(self, chromosome, evaluator):
                v = inner.evaluate(chromosome, evaluator)
                if bad(chromosome):
                    raise ops.InjectedFault('fitness')
                return v
        return Failing()


@register('P13')
def p13(sim):
    """Candidates are worth the same wherever they are evaluated; a failure in a worker reaches the caller, once."""
    environment(sim)
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    cfg = size_limits(ops.draw_ga(sim, 1, 8, multi=False), world)
    cfg['fitness'] = sim.pick('fit', ['time', 'peaks', 'sum', 'time+res', 'time&res'])
    cfg['multi'] = cfg['fitness'] == 'time&res'
    ops.draw_objective(sim, cfg)
    start = sim.weighted('start', 20, 0.7)
    n = 1 + sim.draw('cpus', 4)
    simpool.CONFIG['restart'] = 0.15 if sim.flag('restarts', 0.4) else 0.0
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.schemas.time import Time
    import random
    fit, weights = ops.make_fitness(cfg['fitness'], cfg)
    try:
        init = GeneticScheduler.generate_first_population(pr.wg, pr.contractors, spec=pr.spec, work_estimator=pr.estimator,
                                                          weights=cfg.get('weights'))
    except Exception as e:
        sim.event('no first schedules', type(e).__name__)
        sim.meta['nontrivial'] = False
        return

    def prepared(k):
        b = observing_backend(k, [])
        from sampo.api.genetic_api import ScheduleGenerationScheme
        b.cache_scheduler_info(pr.wg, pr.contractors, spec=pr.spec, rand=random.Random(cfg['seed']),
                               work_estimator=pr.estimator)
        b.cache_genetic_info(cfg['pop'], 0.3, 0.3, 0.05, None, cfg.get('weights'), init, Time(start), weights,
                             ScheduleGenerationScheme(cfg['sgs']), False, cfg['multi'])
        return b

    serial, pooled = prepared(0), prepared(n)
    pop = serial.generate_first_population(cfg['pop'])
    toolbox = serial._toolbox if hasattr(serial, '_toolbox') else None
    out = sim.meta.setdefault('outcome', {})
    compared = 0
    for k in range(1 + sim.draw('rounds', 4)):
        if toolbox is not None and k > 0:
            # some variation, so that not only initial candidates are compared
            child = [toolbox.copy_individual(c) for c in pop]
            for c in child:
                toolbox.mutate_resource_borders(c)
                toolbox.mutate(c)
            pop = child
        bad = sim.flag('worker-fails', 0.3)
        victim = sim.draw('victim', len(pop)) if bad else None
        sim.event('round', k, 'candidates', len(pop), 'fails', victim)
        want = serial.compute_chromosomes(fit, pop)
        if bad:
            key = [repr(x) for x in pop[victim][:2]]
            failing = FailingFitness.make(fit, lambda ch: [repr(x) for x in ch[:2]] == key)
            try:
                pooled.compute_chromosomes(failing, pop)
            except ops.InjectedFault:
                sim.fault('failure in a pool worker')
                out['failure surfaced'] = out.get('failure surfaced', 0) + 1
            except Exception as e:
                raise Violation('pool/failure-type', f'the failure of a worker arrived as {type(e).__name__}: {e}')
            else:
                raise Violation('pool/failure-lost', 'a candidate whose evaluation failed in a worker was accepted')
        try:
            got = pooled.compute_chromosomes(fit, pop)
        except Exception as e:
            raise Violation('pool/crash', f'{ops.describe(cfg)} {n} workers: {type(e).__name__}: {str(e)[:300]}')
        compared += len(want)
        if [tuple(x) for x in got] != [tuple(x) for x in want]:
            bad_i = next((i for i, (x, y) in enumerate(zip(got, want)) if tuple(x) != tuple(y)), None)
            raise Violation('pool/value', f'{ops.describe(cfg)} {n} workers: candidate {bad_i} is worth '
                                          f'{want[bad_i] if bad_i is not None else len(want)} here and '
                                          f'{got[bad_i] if bad_i is not None else len(got)} in the pool')
        sim.state((cfg['sgs'], n, cfg['fitness'], tuple(map(tuple, want))))
    sim.probe('candidates compared', compared)
    sim.meta['nontrivial'] = len(world['works']) > 1


# ------------------------------------------------------------------ P14
@register('P14')
def p14(sim):
    """The initial candidates are complete, valid plans - also when worker processes make them, whoever makes which."""
    environment(sim)
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    cfg = ops.draw_ga(sim, 1, 12, multi=False)
    if len(world['works']) > 12:
        cfg['pop'] = min(cfg['pop'], 6)
    start = sim.weighted('start', 20, 0.7)
    n = sim.draw('cpus', 5)
    deadline = 1 + sim.draw('deadline', 150) if sim.flag('with-deadline', 0.25) else None
    simpool.CONFIG['restart'] = 0.15 if sim.flag('restarts', 0.4) else 0.0
    from sampo.scheduler.genetic.base import GeneticScheduler
    from sampo.scheduler.utils import get_worker_contractor_pool  # noqa
    from sampo.schemas.time import Time
    import random

    def make(k):
        from sampo.api.genetic_api import ScheduleGenerationScheme
        init = GeneticScheduler.generate_first_population(
            pr.wg, pr.contractors, spec=pr.spec, work_estimator=pr.estimator, weights=cfg.get('weights'),
            deadline=Time(deadline) if deadline is not None else None)
        b = observing_backend(k, [])
        b.cache_scheduler_info(pr.wg, pr.contractors, spec=pr.spec, rand=random.Random(cfg['seed']),
                               work_estimator=pr.estimator)
        b.cache_genetic_info(cfg['pop'], 0.3, 0.3, 0.05, Time(deadline) if deadline is not None else None,
                             cfg.get('weights'), init, Time(start), (-1,), ScheduleGenerationScheme(cfg['sgs']),
                             cfg.get('only_lft', False), False)
        pop = b.generate_first_population(cfg['pop'])
        b._ensure_toolbox_created()
        plans = []
        for ind in pop:
            s = b._toolbox.evaluate_chromosome(ind)
            plans.append(s)
        return pop, plans, b

    try:
        pop, plans, b = make(n)
    except Exception as e:
        sim.event('first population', ops.describe(cfg), type(e).__name__)
        from sampo.schemas.exceptions import NoSufficientContractorError
        if isinstance(e, NoSufficientContractorError):
            sim.meta['nontrivial'] = False
            return
        raise Violation('population/crash', f'{ops.describe(cfg)} {n} workers: {type(e).__name__}: {str(e)[:300]}')
    sim.event('first population', ops.describe(cfg), n, 'workers ->', len(pop), 'candidates, makespans',
              [makespan(s) if s is not None else None for s in plans])
    sim.state((n, cfg['sgs'], tuple(makespan(s) if s is not None else None for s in plans)))
    sim.meta['nontrivial'] = len(world['works']) > 1
    if len(pop) != cfg['pop']:
        raise Violation('population/size', f'{ops.describe(cfg)} {n} workers: {len(pop)} candidates')
    for i, s in enumerate(plans):
        if s is None:
            raise Violation('population/invalid', f'{ops.describe(cfg)} {n} workers: candidate {i} cannot be decoded')
        f = check_schedule(world, pr.wg, s, start,
                           ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity', 'duration', 'spec'))
        ops.raise_findings('population/', [(a, f'{ops.describe(cfg)} {n} workers, candidate {i}: {b}') for a, b in f])
    if sim.flag('offspring', 0.6):
        offspring(sim, b, cfg, world, pr, start, pop)
    if n:
        seams.ENTROPY.reset(f'again {sim.draw("entropy", 100)}')
        pop2, plans2, _ = make(n)
        for i, (a, b) in enumerate(zip(plans, plans2)):
            if b is None or canonical(a) != canonical(b):
                raise Violation('population/distribution', f'{ops.describe(cfg)} {n} workers: candidate {i} depends on '
                                                           f'which worker made it')


def movable(b, c):
    """Whether two works inside one priority group, which are next to each other in the order, do not depend on each other."""
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    heads, parents, _ = get_head_nodes_with_connections_mappings(b._wg)
    order = [heads[i] for i in c[0]]
    pos = {}
    for i, n in enumerate(order):
        pos.setdefault(n.work_unit.priority, []).append(i)
    for g in pos.values():
        for i in g[1:-2]:
            if order[i].id not in parents[order[i + 1].id] and order[i + 1].work_unit.priority == order[i].work_unit.priority:
                return True
    return False


def offspring(sim, b, cfg, world, pr, start, pop):
    """What crossover and mutation make of valid candidates is refused or a valid plan; their orders stay orders."""
    from sampo.scheduler.genetic.schedule_builder import make_offspring
    tb = b._toolbox
    opt = sim.flag('opt-res', 0.5)
    refused = done = 0
    c = pop[sim.draw('candidate', len(pop))]
    if movable(b, c):
        tries = [tb.copy_individual(c) for _ in range(60)]
        for t in tries:
            tb.mutate_order(t)
        if all((t[0] == c[0]).all() for t in tries):
            raise Violation('offspring/inert', f'{ops.describe(cfg)}: works could change places in the order, the mutation '
                                               f'of the order left it as it was {len(tries)} times: {c[0].tolist()}')
        sim.meta.setdefault('outcome', {})['orders varied'] = 1
    for k in range(1 + sim.draw('generations', 3)):
        before = [[x.tolist() for x in (c[0], c[1], c[2])] for c in pop]
        children = make_offspring(tb, pop, opt)
        if [[x.tolist() for x in (c[0], c[1], c[2])] for c in pop] != before:
            raise Violation('offspring/parents', f'{ops.describe(cfg)}: making offspring changed the parents')
        keep = []
        for i, c in enumerate(children):
            if sorted(c[0].tolist()) != sorted(pop[0][0].tolist()):
                raise Violation('offspring/order', f'{ops.describe(cfg)}: the order of a child is {c[0].tolist()}')
            s = tb.evaluate_chromosome(c)
            if s is None:
                refused += 1
                continue
            done += 1
            keep.append(c)
            f = check_schedule(world, pr.wg, s, start,
                               ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity', 'duration',
                                'spec'))
            ops.raise_findings('offspring/', [(a, f'{ops.describe(cfg)} generation {k}, child {i}: {d}') for a, d in f])
        sim.event('offspring', k, 'valid', len(keep), 'of', len(children))
        sim.state(('offspring', cfg['sgs'], tuple(tuple(c[0].tolist()) for c in keep[:2])))
        pop = keep or pop
    out = sim.meta.setdefault('outcome', {})
    out['offspring'] = out.get('offspring', 0) + done
    out['offspring refused'] = out.get('offspring refused', 0) + refused

"""P01-P05: what every returned schedule must satisfy, whatever was asked and whatever went wrong before."""
from dst import ops, seams, simpool
from dst.choice import Violation
from dst.oracle import check_schedule, feasible_exists
from dst.props import register
from dst.world import Profile, gen_world, Problem


def profile_for(sim, pid):
    p = Profile()
    big = sim.weighted('big', 2, 0.9)
    if big:
        p.max_macros = 22
        p.min_macros = 10
    p.spec_independent = sim.flag('indep-on', 0.45 if pid == 'P05' else 0.3)
    p.zero_min = sim.flag('zero-min-on', 0.25)
    p.priorities = True
    p.zero_volume = sim.flag('zero-volume-on', 0.35 if pid == 'P04' else 0.15)
    p.odd_costs = sim.flag('odd-costs-on', 0.3)
    if pid == 'P02':
        p.spec = sim.flag('spec-on', 0.4)
    if pid == 'P04':
        p.spec_always = True
    if pid == 'P05':
        p.infeasible = sim.flag('infeasible-on', 0.5)
    return p


def environment(sim):
    """What the machine does while the service runs: the clock, the operating system's entropy."""
    if sim.flag('clock-jumps', 0.15):
        for _ in range(1 + sim.draw('njumps', 3)):
            at = 1 + sim.draw('jump-at', 40)
            dt = [-3600.0, 3600.0, -5.0, 86400.0][sim.draw('jump', 4)]
            seams.CLOCK.jumps[at] = dt
        seams.CLOCK.on_read = lambda j: sim.fault('clock jump')


def disturb(sim, problems, k):
    """Something unpleasant that may happen between two requests of a client."""
    what = sim.weighted('disturb', 4, 0.6)
    if what == 0:
        return
    import gc
    if what == 1:
        gc.collect()
        sim.event('gc')
        return
    if what == 2:
        # a request that fails in the middle: its estimator raises
        pr = problems[sim.draw('victim', len(problems))]
        cfg = ops.draw_heuristic(sim) if sim.flag('abort-heur', 0.7) else ops.draw_ga(sim, 1, 4)
        pr.estimator.fail_after = sim.draw('fail-after', 200)
        try:
            ops.plan(cfg, pr)
            sim.event('request', ops.describe(cfg), 'completed before the fault')
        except ops.InjectedFault:
            sim.fault('estimator failure')
            sim.event('request', ops.describe(cfg), 'aborted by the estimator')
        except Exception as e:
            sim.event('request', ops.describe(cfg), 'failed', type(e).__name__)
        finally:
            pr.estimator.fail_after = None
        return
    # another client of the same service works on a graph with the same ids
    w = gen_world(sim, Profile(max_macros=4, spec=False))
    other = Problem(w, ops.sim_estimator(w))
    cfg = ops.draw_heuristic(sim)
    sim.event('other client', ops.describe(cfg))
    try:
        ops.plan(cfg, other)
    except Exception as e:
        sim.event('other client failed', type(e).__name__)
    if sim.flag('drop', 0.5):
        del other
        gc.collect()
        sim.fault('graph dropped and collected')
    else:
        problems.append(other)


def draw_request(sim, ga_share, world):
    if sim.flag('ga', ga_share):
        cfg = ops.draw_ga(sim, pool=sim.flag('pool', 0.12))
        if len(world['works']) > 14:
            cfg['gens'] = min(cfg['gens'], 1)
            cfg['pop'] = min(cfg['pop'], 4)
        if sim.flag('with-deadline', 0.15):
            cfg['deadline'] = 1 + sim.draw('deadline', 200)
        return cfg
    if sim.flag('search', 0.1) and len(world['works']) <= 14:
        return dict(kind='search', base=sim.pick('base', ['heft', 'hb', 'topo']), deadline=1 + sim.draw('deadline', 200))
    return ops.draw_heuristic(sim)


def session(sim, pid, parts, ga_share=0.3, judge=None):
    environment(sim)
    world = gen_world(sim, profile_for(sim, pid))
    sim.event('world', len(world['works']), 'works', len(world['contractors']), 'contractors',
              'spec for', sorted(world['spec']))
    pr = Problem(world, ops.sim_estimator(world))
    problems = [pr]
    out = sim.meta.setdefault('outcome', {})
    n = 1 + sim.draw('requests', 3)
    seen = 0
    for k in range(n):
        disturb(sim, problems, k)
        simpool.CONFIG['restart'] = 0.05 if sim.flag('restarts', 0.3) else 0.0
        cfg = draw_request(sim, ga_share, world)
        start = sim.weighted('start', 30, 0.6)
        sim.event('request', k, ops.describe(cfg), 'start', start)
        try:
            schedules = ops.plan(cfg, pr, start)
        except Exception as e:
            name = type(e).__name__
            sim.event('  ->', name, str(e)[:120])
            out[name] = out.get(name, 0) + 1
            if judge is not None:
                judge(world, cfg, e, None)
            continue
        out['schedules'] = out.get('schedules', 0) + len(schedules)
        for s in schedules:
            seen += 1
            sim.event('  -> execution time', int(s.execution_time))
            sim.state((cfg['kind'], cfg.get('sgs'), len(world['works']), int(s.execution_time)))
            f = check_schedule(world, pr.wg, s, start, parts)
            ops.raise_findings('', [(sig, f'{ops.describe(cfg)} start={start}: {msg}') for sig, msg in f])
        if judge is not None:
            judge(world, cfg, None, schedules)
    sim.meta['nontrivial'] = seen > 0 and len(world['works']) > 1


@register('P01')
def p01(sim):
    session(sim, 'P01', ('complete', 'precedence', 'chain'))


@register('P02')
def p02(sim):
    session(sim, 'P02', ('team', 'contractor', 'capacity', 'complete'))


@register('P03')
def p03(sim):
    session(sim, 'P03', ('complete', 'time', 'duration', 'cost', 'frame'))


@register('P04')
def p04(sim):
    session(sim, 'P04', ('complete', 'spec'))


@register('P05')
def p05(sim):
    from sampo.schemas.exceptions import NoSufficientContractorError

    def judge(world, cfg, error, schedules):
        ok = feasible_exists(world)
        if error is None:
            if not ok:
                raise Violation('infeasible/accepted', f'{ops.describe(cfg)}: a schedule was returned although no '
                                                       f'contractor can execute some work')
            return
        if isinstance(error, NoSufficientContractorError):
            if ok:
                raise Violation('feasible/refused', f'{ops.describe(cfg)}: {error}')
            return
        kind = 'feasible' if ok else 'infeasible'
        import traceback
        tb = traceback.extract_tb(error.__traceback__)[-1]
        raise Violation(f'{kind}/crash', f'{ops.describe(cfg)}: {type(error).__name__}: {str(error)[:200]} '
                                         f'at {tb.filename.split("/")[-1]}:{tb.name}')

    session(sim, 'P05', ('complete',), judge=judge)

"""P22: statuses of zones; P23: supply of materials."""
from dst import ops, seams, simpool
from dst.choice import Violation
from dst.oracle import check_schedule, feasible_exists, sched_rows, check_capacity
from dst.props import register
from dst.props.feasibility import disturb, draw_request, environment
from dst.props.state import FAMILIES, draw_for, own_world
from dst.world import Profile, Problem, gen_world
from dst.supply import check_supply, deliveries_of
from dst.zones import check_zones, transitions_of


def zone_profile(sim):
    p = Profile(zones=True)
    p.max_macros = 14 if sim.flag('big', 0.15) else 7
    p.spec = sim.flag('spec-on', 0.35)
    p.spec_independent = sim.flag('indep-on', 0.15)
    p.odd_costs = False
    return p


def judge_crash(world, cfg, error, prefix='zone/'):
    from sampo.schemas.exceptions import NoSufficientContractorError
    if not feasible_exists(world):
        return
    import traceback
    tb = traceback.extract_tb(error.__traceback__)[-1]
    if isinstance(error, NoSufficientContractorError):
        raise Violation(prefix + 'refused', f'{ops.describe(cfg)}: {error}')
    raise Violation(prefix + 'crash', f'{ops.describe(cfg)}: {type(error).__name__}: {str(error)[:200]} '
                                  f'at {tb.filename.split("/")[-1]}:{tb.name}')


PARTS = ('complete', 'time', 'precedence', 'chain', 'team', 'capacity', 'duration', 'spec')


@register('P22')
def p22(sim):
    """Works run only while every zone they need has the status they need."""
    environment(sim)
    world = gen_world(sim, zone_profile(sim))
    z = world['zones']
    sim.event('world', len(world['works']), 'works, zones', z)
    pr = Problem(world, ops.sim_estimator(world))
    if sim.weighted('mode', 3, 0.6) == 2:
        return shared(sim, world, pr)
    problems = [pr]
    seen = 0
    for k in range(1 + sim.draw('requests', 3)):
        disturb(sim, problems, k)
        simpool.CONFIG['restart'] = 0.05 if sim.flag('restarts', 0.3) else 0.0
        cfg = draw_request(sim, 0.4, world)
        if cfg['kind'] == 'ga':
            cfg['zones'] = [0.05, 0.5, 1.0][sim.draw('mut-zones', 3)]
        start = sim.weighted('start', 30, 0.7)
        sim.event('request', k, ops.describe(cfg), 'start', start)
        try:
            schedules = ops.plan(cfg, pr, start)
        except Exception as e:
            sim.event('  ->', type(e).__name__, str(e)[:120])
            judge_crash(world, cfg, e)
            continue
        for s in schedules:
            seen += 1
            judge(sim, world, pr, cfg, s, start)
    sim.meta['nontrivial'] = seen > 0 and len(world['works']) > 1


def judge(sim, world, pr, cfg, s, start):
    rows = sched_rows(s)
    changes = transitions_of([s])
    sim.event('  -> execution time', int(s.execution_time), 'changes', len(changes))
    sim.state((cfg['kind'], cfg.get('sgs'), int(s.execution_time), len(changes)))
    sim.probe('changes of status', len(changes))
    what = f'{ops.describe(cfg)} start={start}: '
    f = check_schedule(world, pr.wg, s, start, PARTS, rows=rows)
    f += check_zones(world, rows, changes, [r['start'] for r in rows if r['id'] == pr.wg.finish.id])
    ops.raise_findings('', [(sig, what + msg) for sig, msg in f])


def shared(sim, base, pr):
    """Several projects of one site on one timeline."""
    family = sim.pick('family', ['momentum', 'jit'])
    contr = {c['id']: {k: n for k, n, _ in c['workers']} for c in base['contractors']}
    base['spec'] = {}
    timeline, done, works = None, [], []
    if not feasible_exists(base):
        return
    n = 2 + sim.draw('projects', 2)
    for k in range(n):
        world = base
        if k > 0:
            world = own_world(sim, base, f'p{k}', zones=False)
            world['spec'] = {}
            add_zones(sim, world, base)
        world = dict(world, zones=dict(base['zones'], end={}))
        if not feasible_exists(world):
            continue
        p = Problem(world, ops.sim_estimator(world))
        p.contractors = pr.contractors
        cfg = draw_for(sim, family)
        if cfg['kind'] == 'ga':
            # a search of several generations books only what it returns
            cfg['gens'] = min(cfg['gens'], 1)
        start = sim.weighted('start', 30, 0.6)
        sim.event('project', k, ops.describe(cfg), 'start', start)
        try:
            res = ops.plan_full(cfg, p, start, timeline=timeline)
        except Exception as e:
            sim.event('  ->', type(e).__name__, str(e)[:120])
            judge_crash(world, cfg, e)
            return
        schedule, _, timeline, _ = res[0]
        done.append(schedule)
        works += world['works']
        rows = [r for s in done for r in sched_rows(s)]
        changes = transitions_of(done)
        sim.event('  -> execution time', int(schedule.execution_time), 'changes', len(changes))
        sim.state((family, cfg['kind'], k, int(schedule.execution_time)))
        f = check_zones(dict(works=works, zones=world['zones']), rows, changes)
        f += check_capacity(contr, [rows])
        ops.raise_findings('shared/', [(sig, f'{ops.describe(cfg)} project {k} start={start}: {msg}') for sig, msg in f])
    sim.meta['nontrivial'] = len(done) > 1


def add_zones(sim, world, base):
    by_id = {w['id']: w for w in world['works']}
    for macro in world['macros']:
        reqs = [[k, sim.draw('zone-req', 3)] for k in sorted(base['zones']['start']) if sim.flag('zone-here', 0.55)]
        for wid in macro:
            by_id[wid]['zones'] = [list(r) for r in reqs]


def supply_profile(sim):
    p = Profile(materials=True, min_macros=3)
    p.max_macros = 10 if sim.flag('big', 0.15) else 6
    p.spec = sim.flag('spec-on', 0.25)
    p.odd_costs = False
    return p


@register('P23')
def p23(sim):
    """Materials: every work starts with its materials on the platform, nothing is carried that cannot be."""
    environment(sim)
    world = gen_world(sim, supply_profile(sim))
    land = world['land']
    sim.event('world', len(world['works']), 'works', [len(land[k]) for k in ('platforms', 'holders', 'roads')])
    pr = Problem(world, ops.sim_estimator(world))
    problems = [pr]
    seen = carried = 0
    for k in range(1 + sim.draw('requests', 2)):
        disturb(sim, problems, k)
        cfg = draw_request(sim, 0.2, world)
        if cfg['kind'] == 'ga':
            # looking for deliveries is slow
            cfg['gens'] = min(cfg['gens'], 1)
            cfg['pop'] = min(cfg['pop'], 4)
        start = sim.weighted('start', 30, 0.7)
        sim.event('request', k, ops.describe(cfg), 'start', start)
        try:
            schedules = ops.plan(cfg, pr, start)
        except Exception as e:
            sim.event('  ->', type(e).__name__, str(e)[:120])
            judge_crash(world, cfg, e, 'supply/')
            continue
        for s in schedules:
            seen += 1
            rows = sched_rows(s)
            told = deliveries_of(world, s)
            carried += len(told)
            sim.event('  -> execution time', int(s.execution_time), 'deliveries', len(told))
            sim.state((cfg['kind'], cfg.get('sgs'), int(s.execution_time), len(told)))
            sim.probe('deliveries', len(told))
            f = check_schedule(world, pr.wg, s, start, PARTS, rows=rows)
            f += check_supply(world, rows, told)
            ops.raise_findings('', [(sig, f'{ops.describe(cfg)} start={start}: {msg}') for sig, msg in f])
    sim.meta['nontrivial'] = carried > 0 and len(world['works']) > 1

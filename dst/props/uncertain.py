"""P27: planning under uncertainty - random productivity of workers, works that turn out to be necessary."""
import math
import random
from fractions import Fraction

from dst import ops, simpool, snapshot
from dst.choice import Violation
from dst.isolate import attempt, isolated
from dst.oracle import canonical, check_capacity, check_schedule, feasible_exists, sched_rows
from dst.props import register
from dst.props.feasibility import disturb, environment
from dst.props.service import outcome_of, same, small
from dst.props.state import own_world
from dst.world import KINDS, Problem, gen_world, make_contractors, make_graph

PARTS = ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity', 'spec')


def want(cond, what, msg):
    if not cond:
        raise Violation('uncertain/' + what, msg)


def crash(what, e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)[-1]
    return Violation('uncertain/crash', f'{what}{type(e).__name__}: {str(e)[:200]} at {tb.filename.split("/")[-1]}:{tb.name}')


# ------------------------------------------------------------------ random productivity
def draw_productivity(sim, world):
    """kind, contractor or None, mean, deviation, lowest, highest"""
    out = []
    for k in KINDS:
        if sim.flag('own-kind', 0.7):
            mean = [1.0, 0.7, 1.5, 2.0][sim.draw('mean', 4)]
            sigma = [0.2, 0.0, 0.5, 1.0][sim.draw('sigma', 4)]
            out.append([k, None, mean, sigma, mean / [2, 1, 4][sim.draw('low', 3)], mean * [2, 1, 3][sim.draw('high', 3)]])
        if sim.flag('own-contractor', 0.2):
            c = world['contractors'][sim.draw('whose', len(world['contractors']))]['id']
            out.append([k, c, 1.0, 0.3, 0.5, 1.5])
    return out


def stochastic_estimator(productivity, seed):
    from sampo.schemas.interval import IntervalGaussian
    from sampo.schemas.resources import WorkerProductivityMode
    est = ops.estimator_class()(random.Random(seed))
    for k, c, mean, sigma, lo, hi in productivity:
        est.set_worker_productivity(IntervalGaussian(mean, sigma, lo, hi), k, c)
    est.set_productivity_mode(WorkerProductivityMode.Stochastic)
    return est


def borders(productivity, kind, contractor):
    lo, hi = 0.0, None                # the usual productivity: the harness knows no borders of it
    for c in (None, contractor):
        for k, who, _, _, a, b in productivity:
            if k == kind and who == c:
                lo, hi = a, b
    return lo, hi


def judge_durations(world, productivity, rows, what):
    works = {w['id']: w for w in world['works']}
    for r in rows:
        w = works.get(r['id'])
        if w is None or 'time' in world['spec'].get(r['id'], {}):
            continue
        team = {k: n for k, n, _ in r['workers']}
        d = r['finish'] - r['start']
        lowest, highest = 0, 0
        for q in w['reqs']:
            n, m = team.get(q['kind'], 0), q['max']
            if q['min'] == 0 or n < q['min']:
                continue
            coef = Fraction(-2 * n ** 3 + 3 * n ** 2 + (6 * m * m - 1) * n, 6 * m * m)
            lo, hi = borders(productivity, q['kind'], r['contractor'])
            if hi is not None:
                lowest = max(lowest, math.ceil(Fraction(q['volume']) / (Fraction(hi) * n * coef) * (1 - Fraction(1, 10 ** 9))))
            if highest is not None:
                highest = None if lo <= 0 else max(highest, math.ceil(
                    Fraction(q['volume']) / (Fraction(lo) * n * coef) * (1 + Fraction(1, 10 ** 9))))
        want(d >= lowest and (highest is None or d <= highest), 'duration', f'{what}{r}: {lowest}..{highest} possible')


def judge_plan(sim, world, pr, productivity, s, start, what):
    rows = sched_rows(s)
    ops.raise_findings('uncertain/', [(a, what + b) for a, b in check_schedule(world, pr.wg, s, start, PARTS, rows=rows)])
    judge_durations(world, productivity, rows, what)
    return rows


def draw_planner(sim):
    if sim.flag('ga', 0.25):
        cfg = ops.draw_ga(sim, 2, 6)
        return cfg
    return ops.draw_heuristic(sim)


def plans(sim):
    p = small(sim)
    p.spec = sim.flag('spec-on', 0.3)
    world = gen_world(sim, p)
    world['productivity'] = []
    productivity = draw_productivity(sim, world)
    seed = sim.draw('prod-seed', 10 ** 6)
    cfg = draw_planner(sim)
    start = sim.weighted('start', 20, 0.6)
    what = f'{ops.describe(cfg)} start={start} productivity {productivity[:2]}... seed {seed}: '

    def alone():
        return outcome_of(ops.plan(cfg, Problem(world, stochastic_estimator(productivity, seed)), start))

    ref = isolated(alone) if sim.flag('compared', 0.4) else None
    problems = [Problem(world, stochastic_estimator(productivity, seed + 1))]
    for k in range(sim.weighted('before', 3, 0.5)):
        disturb(sim, problems, k)
    pr = Problem(world, stochastic_estimator(productivity, seed))
    try:
        ss = ops.plan(cfg, pr, start)
    except Exception as e:
        sim.event('plan', what, type(e).__name__, str(e)[:100])
        if not feasible_exists(world):
            return None
        raise crash(what, e)
    for s in ss:
        rows = judge_plan(sim, world, pr, productivity, s, start, what)
        sim.state((cfg['kind'], cfg.get('sgs'), max(r['finish'] for r in rows)))
    sim.event('plan', what, [int(s.execution_time) for s in ss])
    if ref is not None:
        d = same(ref, ('ok', outcome_of(ss)))
        want(not d, 'history', f'{what}the same request as the first one is answered otherwise: {d}')
    return len(world['works'])


def together(sim):
    """Several projects on one timeline."""
    base = gen_world(sim, small(sim, infeasible=False), tag='p0')
    base['spec'], base['productivity'] = {}, []
    productivity = draw_productivity(sim, base)
    contractors = make_contractors(base)
    contr = {c['id']: {k: n for k, n, _ in c['workers']} for c in base['contractors']}
    family = sim.pick('family', [['hb', 'topo', 'rtopo', 'lft', 'rlft'], ['heft']])
    timeline, booked = None, []
    for k in range(2 + sim.draw('projects', 3)):
        w = base if k == 0 else own_world(sim, base, f'p{k}')
        w['productivity'] = []
        pr = Problem(w, stochastic_estimator(productivity, sim.draw('prod-seed', 10 ** 6)))
        pr.contractors = contractors
        cfg = ops.draw_heuristic(sim, family)
        cfg.pop('timeline', None)
        start = sim.weighted('start', 60, 0.4)
        what = f'project {k} {ops.describe(cfg)} start={start}: '
        try:
            s, _, timeline, _ = ops.plan_full(cfg, pr, start, timeline=timeline)[0]
        except Exception as e:
            sim.event(what, type(e).__name__, str(e)[:100])
            if not feasible_exists(w):
                return None
            raise crash(what, e)
        booked.append(judge_plan(sim, w, pr, productivity, s, start, what))
        ops.raise_findings('uncertain/shared-', [(a, what + b) for a, b in check_capacity(contr, booked)])
        sim.event(what, int(s.execution_time))
        sim.state(('shared', cfg['kind'], k, int(s.execution_time)))
    return 2


# ------------------------------------------------------------------ works that turn out to be necessary
def graph_of(wg):
    return (sorted((n.id, snapshot.work_unit(n.work_unit)) for n in wg.nodes),
            sorted((e.start.id, n.id, str(e.lag), e.type.value) for n in wg.nodes for e in n.edges_to),
            wg.start.id, wg.finish.id)


def defects(sim):
    from sampo.schemas.interval import IntervalGaussian, IntervalUniform
    from sampo.schemas.structure_estimator import DefaultStructureEstimator, DefaultStructureGenerationEstimator
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    world = gen_world(sim, small(sim, infeasible=False, spec=False))
    world['productivity'] = []
    if sim.flag('large', 0.4):
        for w in world['works']:
            w['volume'] *= 100
    wg = make_graph(world)
    names = [w['name'] for w in world['works']]
    seed = sim.draw('dseed', 10 ** 6)
    table = {}
    for n in names:
        if sim.flag('fallible', 0.6):
            table[n] = {f'repair {i}': [1.0, 0.0, 0.5, 0.9][sim.draw('dprob', 4)] for i in range(1 + sim.draw('kinds', 3))}
    lo, hi = [(0.5, 2.0), (0.1, 10.0), (3.0, 3.0)][sim.draw('volume', 3)]
    uniform = sim.flag('uniform')
    one_by_one = sim.flag('one-by-one')
    service = {w['name'] for w in world['works'] if w['service']}
    what = f'{len(names)} works, defects {list(table.items())[:2]}..., volume {lo}..{hi}, seed {seed}: '

    def make():
        r = random.Random(seed)
        g = DefaultStructureGenerationEstimator(r)
        if one_by_one:
            for n, d in table.items():
                for k, p in d.items():
                    g.set_probability(n, k, p)
        else:
            from collections import defaultdict
            t = defaultdict(dict)
            t.update({n: dict(d) for n, d in table.items()})
            g.set_probabilities(t)
        g.set_volume_interval(IntervalUniform(lo, hi, random.Random(seed + 1)) if uniform else
                              IntervalGaussian((lo + hi) / 2, 1.0, lo, hi, random.Random(seed + 1)))
        return DefaultStructureEstimator(g, r).set_work_estimator(DefaultWorkEstimator(random.Random(seed + 2)))

    def content(out):
        """What can be compared: new works have ids of their own."""
        known = {n.id for n in wg.nodes}
        return sorted((n.work_unit.name, n.edges_to[0].start.id, n.work_unit.volume,
                       [(r.kind, int(r.volume), r.min_count, r.max_count) for r in n.work_unit.worker_reqs])
                      for n in out.nodes if n.id not in known)

    before = graph_of(wg)
    if sim.flag('interfering', 0.5):
        import numpy
        numpy.random.seed(sim.draw('nseed', 1000))
        sim.fault('global randomness used by others')
    try:
        out = make().restruct(wg)
    except Exception as e:
        raise crash(what, e)
    want(graph_of(wg) == before, 'input', f'{what}the given graph has changed')
    got = graph_of(out)
    known = {n[0] for n in before[0]}
    want([n for n in got[0] if n[0] in known] == before[0], 'works', f'{what}works have changed')
    want(not {id(n) for n in out.nodes} & {id(n) for n in wg.nodes}, 'shared', f'{what}the graphs share nodes')
    new = [n for n in out.nodes if n.id not in known]
    edges = set(got[1]) - set(before[1])
    want(set(before[1]) <= set(got[1]) and (got[2], got[3]) == (before[2], before[3]), 'edges', f'{what}dependencies have changed')
    want(sorted(edges) == sorted([(n.edges_to[0].start.id, n.id, '0', 'FS') for n in new] +
                                 [(n.id, wg.finish.id, '0', 'FS') for n in new]), 'edges', f'{what}{sorted(edges)[:4]}')
    have = {}
    name_of = {w['id']: w['name'] for w in world['works']}
    for n in new:
        parent = name_of.get(n.edges_to[0].start.id)
        u = n.work_unit
        want(parent is not None and table.get(parent, {}).get(u.name, 0) > 0 and parent not in service, 'defect',
             f'{what}{u.name} after {parent}')
        want(u.name not in have.setdefault(parent, []), 'defect', f'{what}{u.name} twice after {parent}')
        have[parent].append(u.name)
        want(lo <= u.volume <= hi, 'volume', f'{what}{u.name}: {u.volume}')
        want(not u.is_service_unit, 'service', f'{what}{u.name}')
        kinds = [r.kind for r in u.worker_reqs]
        want(len(set(kinds)) == len(kinds) and all(0 <= r.min_count <= r.max_count and r.volume >= 0 for r in u.worker_reqs), 'reqs',
             f'{what}{u.name}: {u.worker_reqs}')
    for n, d in table.items():
        if n in service:
            continue
        for k, p in d.items():
            want(p < 1 or k in have.get(n, []), 'certain', f'{what}{k} is missing after {n}')
    again = make().restruct(wg)
    want(content(again) == content(out), 'seed', f'{what}other works by the same seeds: {content(out)[:1]}, {content(again)[:1]}')
    sim.event('defects', [(p, sorted(v)) for p, v in sorted(have.items())])
    sim.state(('defects', tuple(sorted((p, tuple(sorted(v))) for p, v in have.items()))))
    # the plan of what came out
    w = dict(world, works=[dict(x) for x in world['works']] +
             [dict(id=n.id, service=False, volume=n.work_unit.volume, edges=[[n.edges_to[0].start.id, 0, 'FS']],
                   reqs=[dict(kind=r.kind, volume=int(r.volume), min=r.min_count, max=r.max_count) for r in n.work_unit.worker_reqs])
              for n in new], macros=list(world['macros']) + [[n.id] for n in new], spec={})
    need = {}
    for x in w['works']:
        for r in x['reqs']:
            need[r['kind']] = max(need.get(r['kind'], 1), r['min'])
    w['contractors'] = [dict(id='c0', workers=[[k, n + sim.draw('supply', 4), None] for k, n in need.items()])]
    if not w['contractors'][0]['workers']:
        w['contractors'][0]['workers'] = [['driver', 1, None]]
    if not sim.flag('planned', 0.5):
        return len(new)
    pr = Problem.__new__(Problem)
    from dst.world import make_spec
    pr.world, pr.wg, pr.contractors = w, out, make_contractors(w)
    pr.spec, pr.landscape, pr.estimator = make_spec(w), None, ops.sim_estimator(w)
    cfg = ops.draw_heuristic(sim)
    try:
        s = ops.plan(cfg, pr)[0]
    except Exception as e:
        raise crash(what + ops.describe(cfg) + ' ', e)
    ops.raise_findings('uncertain/defects-', [(a, what + b) for a, b in check_schedule(w, out, s, 0, PARTS + ('duration',))])
    return len(new)


# ------------------------------------------------------------------ the estimator itself
def estimates(sim):
    """Requirements by the seed, recreated estimators, static estimates whatever was drawn before."""
    import pickle
    from sampo.schemas.resources import Worker, WorkerProductivityMode
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    world = gen_world(sim, small(sim, infeasible=False))
    world['productivity'] = []
    productivity = draw_productivity(sim, world)
    seed = sim.draw('prod-seed', 10 ** 6)
    est = stochastic_estimator(productivity, seed)
    twin = stochastic_estimator(productivity, seed)
    wg = make_graph(world)
    asked = []
    for n in wg.nodes:
        u = n.work_unit
        c = world['contractors'][sim.draw('c', len(world['contractors']))]['id']
        asked.append((u, [Worker(id='x', name=r.kind, count=r.min_count + sim.draw('n', r.max_count - r.min_count + 1), contractor_id=c)
                          for r in u.worker_reqs]))

    def ask(e, mode=None):
        if mode is not None:
            e.set_productivity_mode(mode)
        return [int(e.estimate_time(u, t)) for u, t in asked]

    first = ask(est)
    want(first == ask(twin), 'stochastic-seed', f'{productivity[:2]} seed {seed}: estimates by the same seed differ')
    static = ask(est, WorkerProductivityMode.Static)
    want(static == ask(est) == ask(twin, WorkerProductivityMode.Static), 'static', 'static estimates differ from time to time')
    plain = DefaultWorkEstimator(random.Random(seed))
    from sampo.schemas.interval import IntervalGaussian
    for k, c, mean, sigma, lo, hi in productivity:
        plain.set_worker_productivity(IntervalGaussian(mean, sigma, lo, hi), k, c)
    want(ask(plain) == static, 'static', 'static estimates depend on what was estimated before')
    f, args = pickle.loads(pickle.dumps(plain.get_recreate_info()))
    want(ask(f(*args)) == static, 'recreated', 'a recreated estimator estimates otherwise')
    want(ask(plain, WorkerProductivityMode.Stochastic) == first, 'stochastic-seed', 'static estimates have used the randomness')
    plain.rand.seed(seed)
    f, args = pickle.loads(pickle.dumps(plain.get_recreate_info()))
    want(ask(f(*args)) == first, 'recreated', 'a recreated estimator is not as random')
    volumes = [[0.1, 1.0, 2.5, 5.0, 10.0][sim.draw('wv', 5)] for _ in range(1 + sim.draw('nv', 4))]
    kinds = [None, ['driver', 'fitter'], ['welder']][sim.draw('kinds', 3)]

    def reqs(e):
        return [[(r.kind, int(r.volume), r.min_count, r.max_count) for r in e.find_work_resources({'granular_name': 'x'}, v, kinds)]
                for v in volumes]

    import numpy
    a = reqs(DefaultWorkEstimator(random.Random(seed)))
    numpy.random.seed(sim.draw('nseed', 1000))
    sim.fault('global randomness used by others')
    b = reqs(DefaultWorkEstimator(random.Random(seed)))
    want(a == b, 'reqs-seed', f'requirements by the same seed {seed} of volumes {volumes}: {a[0]} and {b[0]}')
    for one in a:
        want([r[0] for r in one] == (kinds or KINDS), 'reqs', f'{one}')
        want(all(0 <= mn <= mx and v >= 0 for _, v, mn, mx in one), 'reqs', f'{one}')
    sim.state(('estimates', tuple(first), tuple(static)))
    return len(asked)


@register('P27')
def p27(sim):
    """Plans and projects under uncertainty."""
    environment(sim)
    simpool.CONFIG['restart'] = 0.0
    what = sim.pick('part', [plans, plans, together, defects, estimates])
    n = what(sim)
    out = sim.meta.setdefault('outcome', {})
    name = what.__name__ if n is not None else 'refused'
    out[name] = out.get(name, 0) + 1
    sim.meta['nontrivial'] = n is not None and n > 1

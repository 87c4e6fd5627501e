"""P29: works are handled in the order of their dependencies and priorities, and that order is handed out with the plan."""
import copy

from dst import ops, simpool
from dst.choice import Violation
from dst.isolate import isolated
from dst.oracle import check_schedule, feasible_exists, sched_rows
from dst.props import register
from dst.props.feasibility import disturb, environment
from dst.props.genetic import size_limits, use_backend
from dst.world import Problem, Profile, gen_world

# how urgent the three groups of a generated project are
SCALES = [{1: 1, 2: 2, 3: 3}, {1: 1, 2: 10, 3: 9000}, {1: 2, 2: 3, 3: 64}, {1: 7, 2: 33, 3: 40},
          {1: 0, 2: 0, 3: 0}, {1: 0, 2: 1, 3: 2}, {1: -5, 2: -1, 3: 3}, {1: -100, 2: -7, 3: -3}, {1: 4, 2: 4, 3: 8}]


def draw_world(sim):
    p = Profile()
    p.spec = sim.flag('spec-on', 0.3)
    p.max_macros = 12 if sim.flag('big', 0.2) else 7
    p.min_macros = 2
    world = gen_world(sim, p)
    scale = SCALES[sim.draw('scale', len(SCALES))]
    # more groups than the generator makes by itself: the last works of the project become less urgent
    if sim.flag('more-groups', 0.7):
        last = [m for i, m in enumerate(world['macros']) if i >= len(world['macros']) - 1 - sim.draw('later', 4)]
        late = {w for m in last for w in m}
        for w in world['works']:
            if w['id'] in late:
                w['priority'] = 3
        raise_priorities(world)
    for w in world['works']:
        w['priority'] = scale[w['priority']]
    return world


def raise_priorities(world):
    """Successors are never more urgent than what they depend on."""
    prio = {w['id']: w['priority'] for w in world['works']}
    by_id = {w['id']: w for w in world['works']}
    for m in world['macros']:
        p = max([prio[i] for i in m] + [prio[e[0]] for i in m for e in by_id[i]['edges']])
        for i in m:
            prio[i] = by_id[i]['priority'] = p


def dependencies(world):
    """The head of every chain and the heads it waits for."""
    head = {i: m[0] for m in world['macros'] for i in m}
    dep = {m[0]: set() for m in world['macros']}
    for w in world['works']:
        for p, _, _ in w['edges']:
            if head[p] != head[w['id']]:
                dep[head[w['id']]].add(head[p])
    return head, dep


def judge_order(world, wg, ids, what, priorities=True):
    head, dep = dependencies(world)
    want = set(dep) | {wg.start.id, wg.finish.id}
    if len(ids) != len(set(ids)) or set(ids) != want:
        raise Violation('order/works', f'{what}: the order has {ids}, the project {sorted(want)}')
    if ids[0] != wg.start.id or ids[-1] != wg.finish.id:
        raise Violation('order/ends', f'{what}: begins with {ids[0]}, ends with {ids[-1]}: {ids}')
    at = {i: k for k, i in enumerate(ids)}
    for i, ps in dep.items():
        for p in ps:
            if at[p] > at[i]:
                raise Violation('order/dependency', f'{what}: {i} is handled before {p}, which it waits for: {ids}')
    if priorities:
        prio = {w['id']: w['priority'] for w in world['works']}
        inner = [prio[i] for i in ids[1:-1]]
        if inner != sorted(inner):
            raise Violation('order/priority', f'{what}: works are handled by the priorities {inner}: {ids}')


def watching(orders, pool):
    """A backend that notes the order of every candidate that is evaluated."""
    if pool:
        from sampo.backend.multiproc import MultiprocessingComputationalBackend as Base
    else:
        from sampo.backend.default import DefaultComputationalBackend as Base

    class Watching(Base):
        def compute_chromosomes(self, fitness, chromosomes):
            orders.append([c[0].tolist() for c in chromosomes])
            return super().compute_chromosomes(fitness, chromosomes)

    return Watching(pool) if pool else Watching()


def draw_planner(sim, world):
    if sim.flag('ga', 0.3):
        return size_limits(ops.draw_ga(sim, 4, 8, multi=False, pool=sim.flag('pool', 0.15)), world)
    if sim.flag('search', 0.15):
        return dict(kind='search', base=sim.pick('base', ['heft', 'hb', 'topo']), deadline=1 + sim.draw('deadline', 200))
    return ops.draw_heuristic(sim)


def heads(wg):
    """Ids of the works candidates speak of by their numbers."""
    from sampo.scheduler.utils import get_head_nodes_with_connections_mappings
    return [n.id for n in get_head_nodes_with_connections_mappings(wg)[0]]


def lightened(sim, world, cut):
    """The same project, in which works less urgent than `cut` need something else."""
    w2 = copy.deepcopy(world)
    spec = w2['spec']
    n = 0
    for w in w2['works']:
        if w['priority'] <= cut or w['service'] or not sim.flag('other-needs', 0.7):
            continue
        for r in w['reqs']:
            r['volume'] = sim.draw('other-volume', 60)
            r['max'] += sim.draw('other-max', 4)
        w['volume'] = float(sim.draw('other-work', 12))
        spec.pop(w['id'], None)
        n += 1
    return w2, n


@register('P29')
def p29(sim):
    """Every planner handles works in an order that respects dependencies and priorities."""
    environment(sim)
    world = draw_world(sim)
    feasible = feasible_exists(world)
    pr = Problem(world, ops.sim_estimator(world))
    problems = [pr]
    out = sim.meta.setdefault('outcome', {})
    prios = sorted({w['priority'] for w in world['works']})
    sim.probe('groups', len(prios))
    for k in range(1 + sim.draw('requests', 3)):
        disturb(sim, problems, k)
        cfg = draw_planner(sim, world)
        start = sim.weighted('start', 20, 0.7)
        orders = []
        what = f'{ops.describe(cfg)} start={start}'
        simpool.CONFIG['restart'] = 0.1 if sim.flag('restarts', 0.2) else 0.0
        try:
            with use_backend(watching(orders, cfg.get('pool') or 0)) if cfg['kind'] == 'ga' else use_backend(watching([], 0)):
                answers = ask(cfg, pr, start)
        except Exception as e:
            name = type(e).__name__
            out[name] = out.get(name, 0) + 1
            sim.event('request', what, '->', name, str(e)[:120])
            if feasible:
                raise Violation('order/crash', f'{what}: {name}: {str(e)[:200]}')
            continue
        ids = heads(pr.wg)
        for generation, os in enumerate(orders):
            for o in os:
                judge_order(world, pr.wg, [ids[i] for i in o], f'{what}, candidates {generation}')
        for schedule, _, _, order in answers:
            o = [n.id for n in order]
            sim.event('request', what, '->', o)
            judge_order(world, pr.wg, o, what, cfg.get('sgs') != 'Parallel')
            for n in order:
                if pr.wg.dict_nodes.get(n.id) is not n:
                    raise Violation('order/nodes', f'{what}: {n.id} of the order is not the one of the project')
            f = check_schedule(world, pr.wg, schedule, start, ('complete', 'time', 'precedence', 'chain', 'capacity'))
            ops.raise_findings('order/', [(a, f'{what}: {b}') for a, b in f])
            sim.state((cfg['kind'], cfg.get('sgs'), tuple(o)))
        out['orders'] = out.get('orders', 0) + len(answers)
        out['candidates'] = out.get('candidates', 0) + sum(map(len, orders))
        if cfg['kind'] in ('heft', 'hb', 'topo') and len(prios) > 1 and answers:
            cut = prios[sim.draw('cut', len(prios) - 1)]
            other, n = lightened(sim, world, cut)
            if not n or not feasible_exists(other):
                continue

            def alone():
                p2 = Problem(other, ops.sim_estimator(other))
                return sched_rows(ask(cfg, p2, start)[0][0])

            told = isolated(alone)
            if told[0] == 'error':
                raise Violation('order/crash', f'{what}: with other needs of the less urgent works: {told[1:]}')
            rows = told[1]
            was = {r['id']: r for r in sched_rows(answers[0][0])}
            for r in rows:
                w = next((w for w in world['works'] if w['id'] == r['id']), None)
                if w is None or w['priority'] > cut:
                    continue
                q = was[r['id']]
                if (q['start'], q['finish'], q['workers']) != (r['start'], r['finish'], r['workers']):
                    raise Violation('order/influence', f'{what}: {r["id"]} (priority {w["priority"]}) is planned '
                                                       f'{q["start"]}-{q["finish"]} {q["workers"]}, but {r["start"]}-{r["finish"]} {r["workers"]} '
                                                       f'when works less urgent than {cut} need something else')
            out['compared'] = out.get('compared', 0) + 1
    sim.meta['nontrivial'] = len(prios) > 1


def ask(cfg, pr, start):
    return ops.plan_full(cfg, pr, start)

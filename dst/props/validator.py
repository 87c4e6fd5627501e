"""P19: the library's validator accepts every good plan and refuses every broken one."""
import copy

from dst import ops, snapshot
from dst.choice import Violation
from dst.oracle import check_schedule, sched_rows
from dst.props import register
from dst.props.feasibility import draw_request, environment
from dst.props.service import small
from dst.world import Problem, gen_world

# what the validator is there to notice; everything else (lags, durations, prices, other terms) it may or may not
CLAIMED = ('complete/missing', 'time/negative', 'precedence/order', 'precedence/project-start', 'precedence/project-finish',
           'duration/service', 'team/below-min', 'team/above-max', 'team/unrequested', 'capacity/exceeded', 'spec/contractor')

CORRUPT = ['drop', 'shift', 'stretch', 'reverse', 'exchange', 'count', 'contractor', 'dismiss', 'stranger', 'service', 'nothing', 'shrink-contractor', 'onto']


def findings(world, wg, rows):
    by_id = {r['id'] for r in rows}
    out = []
    for w in list(world['works']) + [dict(id=wg.start.id), dict(id=wg.finish.id)]:
        if w['id'] not in by_id:
            out.append(('complete/missing', w['id']))
    if out:
        return out
    at = {r['id']: r for r in rows}
    f = check_schedule(world, wg, None, 0, ('precedence', 'chain', 'team', 'contractor', 'capacity', 'duration', 'spec', 'time'), rows=rows)
    out = []
    for s, m in f:
        out.append((s, m))
    for w in world['works']:
        for p, _, t in w['edges']:
            if at[w['id']]['start'] < at[p]['finish']:
                out.append(('precedence/order', f'{p} -> {w["id"]}'))
        if w['service'] and at[w['id']]['start'] != at[w['id']]['finish']:
            out.append(('duration/service', w['id']))
        kinds = [k for k, _, _ in at[w['id']]['workers']]
        if len(set(kinds)) != len(kinds):
            out.append(('team/duplicate-kind', w['id']))
        # the oracle leaves out the kinds whose number the specification fixes; the validator does not
        q = {r['kind']: r for r in w['reqs']}
        for k, n, _ in at[w['id']]['workers']:
            if k in q and n < q[k]['min']:
                out.append(('team/below-min', f'{w["id"]} {k} {n}'))
            if k in q and n > q[k]['max']:
                out.append(('team/above-max', f'{w["id"]} {k} {n}'))
        for k, r in q.items():
            if r['min'] > 0 and k not in kinds:
                out.append(('team/below-min', f'{w["id"]} has no {k}'))
    return out


def corrupt(sim, world, works, contractors):
    """One thing that went wrong with the plan on its way to the validator."""
    from sampo.schemas.resources import Worker
    from sampo.schemas.time import Time
    what = CORRUPT[sim.draw('corruption', len(CORRUPT))]
    i = sim.draw('work', len(works))
    w = works[i]
    if what == 'drop':
        if len(works) > 1:
            works.pop(i)
    elif what == 'shift':
        d = sim.draw('by', 41) - 20
        s, f = (int(t) + d for t in w.start_end_time)
        if s >= 0:
            w.start_end_time = (Time(s), Time(f))
    elif what == 'stretch':
        s, f = (int(t) for t in w.start_end_time)
        f = max(s, f + sim.draw('by', 21) - 10)
        w.start_end_time = (Time(s), Time(f))
    elif what == 'reverse':
        w.start_end_time = (w.start_end_time[1], w.start_end_time[0])
    elif what == 'exchange':
        o = works[sim.draw('other', len(works))]
        w.start_end_time, o.start_end_time = o.start_end_time, w.start_end_time
    elif what == 'onto':
        # two works at the same time
        o = works[sim.draw('other', len(works))]
        d = int(w.finish_time) - int(w.start_time)
        w.start_end_time = (o.start_time, Time(int(o.start_time) + d))
    elif what == 'count':
        if w.workers:
            x = w.workers[sim.draw('worker', len(w.workers))]
            x.count = max(0, [x.count - 1, x.count + 1, x.count + 3, 0, 1000][sim.draw('count', 5)])
    elif what == 'contractor':
        c = contractors[sim.draw('contractor', len(contractors))]
        w.contractor_id, w.contractor = c.id, c.name
        for x in w.workers:
            x.contractor_id = c.id
    elif what == 'dismiss':
        if w.workers:
            w.workers.pop(sim.draw('worker', len(w.workers)))
    elif what == 'stranger':
        kind = world['kinds'][sim.draw('kind', len(world['kinds']))]
        if w.workers and kind not in [x.name for x in w.workers]:
            c = w.workers[0].contractor_id
            w.workers.append(Worker('stranger', kind, 1 + sim.draw('n', 3), c))
    elif what == 'service':
        for x in works:
            if x.is_service_unit and sim.flag('this', 0.6):
                x.start_end_time = (x.start_time, Time(int(x.finish_time) + 1 + sim.draw('by', 3)))
                break
    return what


@register('P19')
def p19(sim):
    from sampo.schemas.schedule import Schedule
    from sampo.utilities.validation import validate_schedule
    environment(sim)
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    cfg = draw_request(sim, 0.15, world)
    cfg.pop('pool', None)
    start = sim.weighted('start', 20, 0.7)
    out = sim.meta.setdefault('outcome', {})
    try:
        schedule = ops.plan(cfg, pr, start)[0]
    except Exception as e:
        out[type(e).__name__] = out.get(type(e).__name__, 0) + 1
        return
    sim.event('plan', ops.describe(cfg), int(schedule.execution_time))
    works = [copy.deepcopy(w) for w in schedule.works]
    for _ in range(1 + sim.draw('variants', 4)):
        broken = copy.deepcopy(works)
        w2 = world
        contractors = pr.contractors
        done = []
        for _ in range(sim.draw('corruptions', 3)):
            what = corrupt(sim, world, broken, contractors)
            if what == 'shrink-contractor':
                # the contractor lost people since the plan was made
                w2 = dict(w2, contractors=[dict(c, workers=[list(x) for x in c['workers']]) for c in w2['contractors']])
                c = w2['contractors'][sim.draw('which', len(w2['contractors']))]
                if c['workers']:
                    x = c['workers'][sim.draw('who', len(c['workers']))]
                    x[1] = max(0, x[1] - 1 - sim.draw('lost', 3))
                contractors = Problem(w2).contractors
            done.append(what)
        sim.fault('damaged plan', len([x for x in done if x != 'nothing']))
        damaged = Schedule.from_scheduled_works(broken)
        rows = sched_rows(damaged)
        f = findings(w2, pr.wg, rows)
        bad = [x for x in f if x[0] in CLAIMED]
        before = (snapshot.problem(pr), snapshot.schedule(damaged))
        try:
            validate_schedule(damaged, pr.wg, contractors, pr.spec)
            verdict = 'accepted'
        except AssertionError:
            verdict = 'refused'
        except Exception as e:
            verdict = f'refused'
            sim.event('validator raised', type(e).__name__)
        sim.event('  damaged by', ','.join(done), '->', verdict, sorted({x[0] for x in f}))
        out[verdict] = out.get(verdict, 0) + 1
        sim.state((tuple(done), verdict, tuple(sorted({x[0] for x in f}))))
        if verdict == 'accepted' and bad:
            raise Violation(f'validator/accepts/{bad[0][0]}', f'{",".join(done)}: {bad[0][1]}')
        if verdict == 'refused' and not f:
            raise Violation('validator/refuses-good', f'{",".join(done)}: the plan of {ops.describe(cfg)} is fine')
        d = snapshot.diff(before, (snapshot.problem(pr), snapshot.schedule(damaged)), 'inputs')
        if d:
            raise Violation('validator/changes', d)
    sim.meta['nontrivial'] = len(world['works']) > 1

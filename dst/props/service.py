"""P06-P08: a planning service keeps what its clients gave it, and what one of them does never shows to another."""
from dst import ops, seams, simpool, snapshot
from dst.choice import Violation
from dst.isolate import attempt, isolated
from dst.oracle import sched_rows
from dst.props import register
from dst.props.feasibility import disturb, draw_request, environment
from dst.world import Profile, Problem, gen_world


def outcome_of(schedules):
    """What the client sees: every returned schedule in full, in order."""
    return [snapshot.schedule(s) for s in schedules]


def describe_outcome(o):
    if o[0] == 'error':
        return f'{o[1]}: {o[2][:120]}'
    return f'{len(o[1])} schedules, execution times {[max(r[2] for r in s) for s in o[1]]}'


def same(a, b):
    """None when both outcomes are the same for the client, else the first difference."""
    if a[0] != b[0]:
        return f'{describe_outcome(a)} / {describe_outcome(b)}'
    if a[0] == 'error':
        return None if a[1] == b[1] else f'{describe_outcome(a)} / {describe_outcome(b)}'
    return snapshot.diff(a[1], b[1], 'schedules')


def small(sim, **kw):
    p = Profile(**kw)
    p.spec_independent = sim.flag('indep-on', 0.2)
    p.zero_min = sim.flag('zero-min-on', 0.2)
    p.infeasible = sim.flag('infeasible-on', 0.15)
    if sim.flag('big', 0.15):
        p.max_macros = 18
        p.min_macros = 8
    return p


@register('P06')
def p06(sim):
    """Inputs are what they were after every call, whether it succeeded or was aborted."""
    environment(sim)
    world = gen_world(sim, small(sim))
    pr = Problem(world, ops.sim_estimator(world))
    kept = []                       # schedules returned earlier belong to the client too
    out = sim.meta.setdefault('outcome', {})
    for k in range(1 + sim.draw('requests', 4)):
        before = snapshot.problem(pr)
        cfg = draw_request(sim, 0.35, world)
        start = sim.weighted('start', 20, 0.6)
        validate = sim.flag('validate', 0.25)
        if sim.flag('abort', 0.35):
            pr.estimator.fail_after = sim.draw('fail-after', 300)
        sim.event('request', k, ops.describe(cfg), 'start', start, 'validate', validate,
                  'estimator fails after', pr.estimator.fail_after)
        what = 'ok'
        try:
            ss = ops.plan(cfg, pr, start, validate=validate)
            kept.append((ops.describe(cfg), ss, outcome_of(ss)))
        except ops.InjectedFault:
            sim.fault('estimator failure')
            what = 'aborted'
        except Exception as e:
            what = type(e).__name__
        pr.estimator.fail_after = None
        out[what] = out.get(what, 0) + 1
        sim.event('  ->', what)
        sim.state((cfg['kind'], cfg.get('sgs'), what, len(world['works'])))
        d = snapshot.diff(before, snapshot.problem(pr), 'inputs')
        if d:
            part = d.split('/')[1] if '/' in d else 'inputs'
            raise Violation(f'inputs/{part.split("[")[0].split(":")[0]}', f'{ops.describe(cfg)} ({what}): {d}')
        for who, ss, was in kept:
            d = snapshot.diff(was, outcome_of(ss), 'schedule')
            if d:
                raise Violation('inputs/earlier-schedule', f'schedule returned to {who} changed by {ops.describe(cfg)}: {d}')
    sim.meta['nontrivial'] = len(world['works']) > 1


def fresh_plan(world, cfg, start):
    """Reference: the same request as the first thing a fresh service does."""
    def go():
        pr = Problem(world, ops.sim_estimator(world))
        return outcome_of(ops.plan(cfg, pr, start))
    return isolated(go)


@register('P07')
def p07(sim):
    """A request gets the same answer whatever happened before it."""
    world = gen_world(sim, small(sim))
    n = 1 + sim.draw('requests', 3)
    requests = []
    for _ in range(n):
        cfg = draw_request(sim, 0.35, world)
        cfg.pop('pool', None)
        requests.append((cfg, sim.weighted('start', 20, 0.7)))
    refs = [fresh_plan(world, cfg, start) for cfg, start in requests]
    environment(sim)
    pr = Problem(world, ops.sim_estimator(world))
    problems = [pr]
    schedulers = {}
    out = sim.meta.setdefault('outcome', {})
    order = []
    for k in range(n + sim.draw('repeat', 3)):
        disturb(sim, problems, k)
        if sim.flag('extra-disturb', 0.3):
            disturb(sim, problems, k)
        i = k if k < n else sim.draw('again', n)
        cfg, start = requests[i]
        if sim.flag('rebuilt', 0.2):
            # the client builds its objects anew
            pr = Problem(world, ops.sim_estimator(world))
            problems[0] = pr
            sim.event('objects built anew')
        sched = None
        if cfg['kind'] in ('heft', 'hb', 'topo', 'lft') and sim.flag('reuse-scheduler', 0.5):
            key = (i, id(pr))
            sched = schedulers.get(key)
            if sched is None:
                sched = schedulers[key] = ops.make_scheduler(cfg, pr.estimator)
                schedulers[key, 'keep'] = pr
        sim.event('request', i, ops.describe(cfg), 'start', start)
        got = attempt(lambda: outcome_of(ops.plan(cfg, pr, start, scheduler=sched)))
        order.append(i)
        sim.event('  ->', describe_outcome(got))
        out[got[0]] = out.get(got[0], 0) + 1
        sim.state((cfg['kind'], tuple(order), describe_outcome(got)))
        d = same(refs[i], got)
        if d:
            raise Violation(f'history/{"ga" if cfg["kind"] == "ga" else "heuristic"}',
                            f'{ops.describe(cfg)} start={start}: fresh service and used service differ: {d}')
    sim.meta['nontrivial'] = len(world['works']) > 1


@register('P08')
def p08(sim):
    """Concurrent callers get what they would have got alone."""
    from dst.simthreads import Scheduler
    import os
    n = 2 + sim.weighted('callers', 3, 0.5)
    shared = sim.flag('shared-problem', 0.5)
    same_ids = sim.flag('same-ids', 0.6)
    worlds = []
    for i in range(n):
        if i == 0 or not shared:
            worlds.append(gen_world(sim, small(sim), tag='' if same_ids else f't{i}'))
        else:
            worlds.append(worlds[0])
    jobs = []
    ga_used = False
    for i in range(n):
        if not ga_used and sim.flag('ga', 0.2):
            ga_used = True
            cfg = ops.draw_ga(sim, 1, 4)
            cfg['gens'] = min(cfg['gens'], 1)
        else:
            cfg = ops.draw_heuristic(sim)
        jobs.append((worlds[i], cfg, sim.weighted('start', 20, 0.7)))
    refs = [fresh_plan(w, cfg, start) for w, cfg, start in jobs]
    own_estimator = sim.flag('own-estimator', 0.5)
    base = Problem(worlds[0], ops.sim_estimator(worlds[0]))
    probs = []
    for i, (w, cfg, start) in enumerate(jobs):
        if shared:
            p = base if i == 0 or sim.flag('same-objects', 0.7) else Problem(w, ops.sim_estimator(w))
        else:
            p = base if i == 0 else Problem(w, ops.sim_estimator(w))
        probs.append(p)
    befores = [snapshot.problem(p) for p in probs]

    def caller(i):
        w, cfg, start = jobs[i]
        p = probs[i]
        if own_estimator:
            est = ops.sim_estimator(w)
            q = Problem.__new__(Problem)
            q.world, q.wg, q.contractors, q.spec, q.estimator = w, p.wg, p.contractors, p.spec, est
            p = q
        return lambda: outcome_of(ops.plan(cfg, p, start))

    gap = [40, 200, 1000, 5000][sim.draw('gap-scale', 4)]
    sch = Scheduler(sim, os.path.join(seams.REPO, 'sampo'), gap, max_switches=400)
    results = sch.run([caller(i) for i in range(n)])
    sim.event('callers', n, 'shared' if shared else 'separate', 'switches', sch.switches,
              'lines', sch.lines)
    if sch.switches:
        sim.fault('preemption inside the library', sch.switches)
    out = sim.meta.setdefault('outcome', {})
    for i, (status, value) in enumerate(results):
        w, cfg, start = jobs[i]
        if status == 'error' and not isinstance(value, Exception):
            raise value
        got = ('ok', value) if status == 'ok' else ('error', type(value).__name__, str(value)[:300])
        sim.event('caller', i, ops.describe(cfg), '->', describe_outcome(got))
        out[got[0]] = out.get(got[0], 0) + 1
        d = same(refs[i], got)
        if d:
            raise Violation('concurrent/result', f'caller {i} ({ops.describe(cfg)}, start={start}) alone and among '
                                                 f'{n} concurrent callers: {d}')
        d = snapshot.diff(befores[i], snapshot.problem(probs[i]), 'inputs')
        if d:
            raise Violation('concurrent/inputs', f'inputs of caller {i} changed: {d}')
    sim.meta['nontrivial'] = sch.switches > 0

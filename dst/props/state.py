"""P15-P16: the shared occupancy of contractors - several projects on one timeline, slot search over long histories."""
from dst import ops
from dst.choice import HarnessError, Violation
from dst.isolate import isolated, attempt
from dst.oracle import check_capacity, check_schedule, expected_duration, sched_rows
from dst.props import register
from dst.props.feasibility import environment
from dst.props.service import outcome_of, small
from dst.world import Profile, Problem, gen_world, make_contractors

FAMILIES = {'jit': ['heft', 'ga'], 'momentum': ['hb', 'topo', 'rtopo', 'lft', 'rlft', 'heft', 'ga']}


def draw_for(sim, family):
    kind = sim.pick('kind', FAMILIES[family])
    if kind == 'ga':
        cfg = ops.draw_ga(sim, 1, 4, multi=False)
        cfg['sgs'] = 'Parallel' if family == 'jit' else 'Serial'
        return cfg
    cfg = ops.draw_heuristic(sim, [kind])
    cfg.pop('timeline', None)
    if kind == 'heft' and family == 'momentum':
        cfg['timeline'] = 'momentum'
    return cfg


def own_world(sim, base, tag, **kw):
    """A further project for the same contractors."""
    w = gen_world(sim, small(sim, **kw), tag=tag)
    w['contractors'] = base['contractors']
    w['kinds'] = base['kinds']
    have = {}
    for c in base['contractors']:
        for k, n, _ in c['workers']:
            have[k] = max(have.get(k, 0), n)
    for x in w['works']:
        for r in x['reqs']:
            if r['kind'] not in have:
                r['kind'] = next(iter(sorted(have)))
            r['min'] = min(r['min'], have[r['kind']])
            r['max'] = max(r['max'], r['min'])
        seen, reqs = set(), []
        for r in x['reqs']:
            if r['kind'] not in seen:
                seen.add(r['kind'])
                reqs.append(r)
        x['reqs'] = reqs
    w['spec'] = {}
    w['productivity'] = [p for p in w['productivity'] if p[1] is None or any(p[1] == c['id'] for c in base['contractors'])]
    return w


@register('P15')
def p15(sim):
    """Several projects handed one timeline share the contractors without ever overbooking them."""
    environment(sim)
    base = gen_world(sim, small(sim, infeasible=False), tag='p0')
    contr = {c['id']: {k: n for k, n, _ in c['workers']} for c in base['contractors']}
    contractors = make_contractors(base)
    family = sim.pick('family', ['momentum', 'jit'])
    timeline = None
    booked = []
    out = sim.meta.setdefault('outcome', {})
    n = 2 + sim.draw('projects', 4)
    done = 0
    same_ids = sim.flag('same-ids', 0.5)
    for k in range(n):
        w = base if k == 0 else own_world(sim, base, 'p0' if same_ids else f'p{k}')
        pr = Problem(w, ops.sim_estimator(w))
        pr.contractors = contractors
        cfg = draw_for(sim, family)
        start = sim.weighted('start', 60, 0.4)
        if sim.flag('abort', 0.2):
            pr.estimator.fail_after = sim.draw('fail-after', 150)
        sim.event('project', k, ops.describe(cfg), 'start', start, 'timeline', 'given' if timeline is not None else 'new')
        try:
            s, began, tl, order = ops.plan_full(cfg, pr, start, timeline=timeline)[0]
        except ops.InjectedFault:
            sim.fault('estimator failure')
            out['aborted'] = out.get('aborted', 0) + 1
            sim.event('  -> aborted')
            if timeline is not None and sim.flag('give-up', 0.5):
                # the reservations of the aborted project stay or go; what was booked before must still be respected
                pass
            continue
        except Exception as e:
            out[type(e).__name__] = out.get(type(e).__name__, 0) + 1
            sim.event('  ->', type(e).__name__, str(e)[:100])
            from sampo.schemas.exceptions import NoSufficientContractorError
            if not isinstance(e, NoSufficientContractorError):
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation('shared/crash', f'project {k} {ops.describe(cfg)} start={start}: {type(e).__name__}: '
                                                f'{str(e)[:200]} at {tb.filename.split("/")[-1]}:{tb.name}')
            continue
        rows = sched_rows(s)
        sim.event('  ->', max(r['finish'] for r in rows))
        out['planned'] = out.get('planned', 0) + 1
        if timeline is not None and tl is not timeline:
            raise Violation('shared/ignored', f'{ops.describe(cfg)}: the given timeline was not used')
        timeline = tl
        f = check_schedule(w, pr.wg, s, start, ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity',
                                                'duration', 'spec'))
        ops.raise_findings('shared/own-', [(a, f'project {k} {ops.describe(cfg)} start={start}: {b}') for a, b in f])
        booked.append(rows)
        done += 1
        f = check_capacity(contr, booked)
        ops.raise_findings('shared/', [(a, f'projects {k + 1}, {ops.describe(cfg)} start={start}: {b}') for a, b in f])
        sim.state((family, cfg['kind'], k, max(r['finish'] for r in rows)))
    sim.probe('projects sharing a timeline', done)
    sim.meta['nontrivial'] = done >= 2


class Occupancy:
    """Reference model: who is busy when, as a plain list of intervals."""

    def __init__(self, have):
        self.have = have               # (contractor, kind) -> count
        self.busy = []                 # (contractor, kind, count, start, end)

    def free(self, c, k, t, d):
        """Specialists of the kind that are free during all of [t, t+d)."""
        points = [t] + [s for cc, kk, n, s, e in self.busy if (cc, kk) == (c, k) and t < s < t + d]
        worst = 0
        for p in points:
            worst = max(worst, sum(n for cc, kk, n, s, e in self.busy if (cc, kk) == (c, k) and s <= p < e))
        return self.have[c, k] - worst

    def fits(self, c, team, t, d, alone=False):
        if d <= 0:
            return True
        return all(self.free(c, k, t, d) >= (self.have[c, k] if alone else n) for k, n in team.items() if n > 0)

    def earliest(self, c, team, t0, d, alone=False):
        for t in sorted({t0} | {e for _, _, _, s, e in self.busy if e > t0}):
            if self.fits(c, team, t, d, alone):
                return t
        raise HarnessError('no slot')

    def book(self, c, team, t, d, alone=False):
        if d > 0:
            for k, n in team.items():
                if n > 0:
                    self.busy.append((c, k, self.have[c, k] if alone else n, t, t + d))


@register('P16')
def p16(sim):
    """The search for a slot, over long histories of bookings, against a brute-force model of the occupancy."""
    from sampo.scheduler.timeline.just_in_time_timeline import JustInTimeTimeline
    from sampo.scheduler.timeline.momentum_timeline import MomentumTimeline
    from sampo.scheduler.utils import get_worker_contractor_pool
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.schedule_spec import WorkSpec
    from sampo.schemas.time import Time
    kinds = ['driver', 'fitter', 'manager'][:1 + sim.draw('kinds', 3)]
    works = []
    macros = []
    for m in range(3 + sim.draw('works', 14 if sim.tier == 'quick' else 26)):
        nk = 1 + sim.draw('nk', len(kinds))
        req_kinds = sim.shuffle('rk', kinds)[:nk]
        mins = [1 + sim.draw('min', 2) for _ in req_kinds]
        members = []
        for c in range(1 + sim.weighted('chain', 3, 0.8)):
            wid = f'w{len(works):02d}'
            vol = 0 if sim.weighted('zero', 2, 0.93) else 1 + sim.draw('vol', 30)
            works.append(dict(id=wid, name=f'n{wid}', reqs=[dict(kind=k, volume=vol, min=mn, max=mn + 3)
                                                            for k, mn in zip(req_kinds, mins)],
                              edges=[[members[-1], 0, 'IFS']] if members else [], group='g', priority=1, service=False,
                              volume=1.0 + sim.draw('wvol', 5), zones=[], materials=[]))
            members.append(wid)
        macros.append(members)
    contractors = []
    for c in range(1 + sim.draw('contractors', 2)):
        contractors.append(dict(id=f'c{c}', workers=[[k, 2 + sim.draw('supply', 5), None] for k in sim.shuffle('ck', kinds)]))
    world = dict(works=works, macros=macros, contractors=contractors, kinds=kinds, productivity=[], spec={}, start=0)
    pr = Problem(world, ops.sim_estimator(world))
    have = {(c['id'], k): n for c in contractors for k, n, _ in c['workers']}
    by_id = {w['id']: w for w in works}
    model = Occupancy(have)
    momentum = sim.flag('momentum', 0.6)
    tl = (MomentumTimeline if momentum else JustInTimeTimeline)(get_worker_contractor_pool(pr.contractors),
                                                                 LandscapeConfiguration())
    name = 'momentum' if momentum else 'jit'
    node2swork = {}
    tl.schedule(pr.wg.start, node2swork, [], pr.contractors[0], WorkSpec(), Time(0), None, Time(0), pr.estimator)
    todo = [m for m in macros]
    indep_on = sim.flag('indep-on', 0.3)
    delays = sim.flag('delays', 0.5)
    pending_fail = 0
    for step, macro in enumerate(todo):
        node = pr.wg[macro[0]]
        cid = sim.pick('contractor', [c['id'] for c in contractors])
        contractor = next(c for c in pr.contractors if c.id == cid)
        team = {}
        for r in by_id[macro[0]]['reqs']:
            hi = min(r['max'], have[cid, r['kind']])
            team[r['kind']] = r['min'] + sim.draw('n', max(1, hi - r['min'] + 1))
        workers = [contractor.workers[k].copy().with_count(n) for k, n in team.items()]
        spec = WorkSpec()
        if indep_on and sim.flag('independent', 0.2):
            spec.is_independent = True
        if sim.flag('assigned', 0.15):
            spec.assigned_time = Time(1 + sim.draw('time', 25))
        parent = sim.weighted('parent', 40, 0.4)
        d = 0
        for wid in macro:
            lo, hi = expected_duration(world, by_id[wid], cid, team)
            t = int(pr.estimator.estimate_time(pr.wg[wid].work_unit, workers))
            if not lo <= t <= hi:
                raise Violation('slot/duration', f'{wid} by {team} of {cid}: {t}, expected {lo}..{hi}')
            d += t
        if spec.assigned_time is not None:
            d = int(spec.assigned_time)

        def query():
            return tl.find_min_start_time_with_additional(node, workers, node2swork, spec, None, Time(parent), pr.estimator)

        if sim.flag('failed-query', 0.1):
            # an estimator failure in the middle of a question must leave no trace
            pr.estimator.fail_after = 0
            try:
                query()
            except ops.InjectedFault:
                sim.fault('estimator failure')
            pr.estimator.fail_after = None
        st, ft, _ = query()
        st = int(st)
        # other questions in between
        for _ in range(sim.draw('other-questions', 3)):
            other = pr.wg[sim.pick('other', todo[step:])[0]]
            if {r.kind for r in other.work_unit.worker_reqs} <= set(k for c, k in have if c == cid):
                ow = [contractor.workers[r.kind].copy().with_count(r.min_count) for r in other.work_unit.worker_reqs]
                if all(have[cid, w.name] >= w.count for w in ow):
                    tl.find_min_start_time_with_additional(other, ow, node2swork, WorkSpec(), None,
                                                           Time(sim.draw('p', 60)), pr.estimator)
        st2 = int(query()[0])
        sim.event(step, macro, cid, team, 'duration', d, 'after', parent, 'independent', spec.is_independent, '->', st)
        what = f'{name}: {macro} team {team} of {cid} for {d} after {parent}'
        if st2 != st:
            raise Violation('slot/impure', f'{what}: asked twice, {st} and then {st2}')
        if momentum and not (spec.is_independent or d == 0):
            best = model.earliest(cid, team, parent, d)
            if st != best:
                raise Violation('slot/not-earliest' if st > best else 'slot/overbooked',
                                f'{what}: offered {st}, the earliest possible is {best}')
        if momentum and st < parent:
            raise Violation('slot/early', f'{what}: offered {st}')
        at = max(st, parent)
        # the question "may it start at t" against the model
        for _ in range(3):
            t = parent + sim.draw('probe-at', 60)
            can = tl.can_schedule_at_the_moment(node, workers, spec, node2swork, Time(t), Time(d))
            fits = model.fits(cid, team, t, d, spec.is_independent)
            if can and not fits:
                raise Violation('slot/allowed-overbooking', f'{what}: allowed to start at {t} although busy')
            if momentum and fits and not can and d > 0 and not spec.is_independent:
                raise Violation('slot/refused', f'{what}: refused at {t} although free')
            if can and delays and sim.flag('start-there', 0.4):
                at = t
                break
        if not model.fits(cid, team, at, d, spec.is_independent):
            raise Violation('slot/overbooked', f'{what}: offered {at} although busy')
        tl.schedule(node, node2swork, workers, contractor, spec, Time(at), spec.assigned_time, Time(0), pr.estimator)
        got = [node2swork[pr.wg[wid]] for wid in macro]
        s0, f0 = int(got[0].start_time), int(got[-1].finish_time)
        if s0 != at or f0 != at + d:
            raise Violation('slot/booked-elsewhere', f'{what}: asked for {at}..{at + d}, booked {s0}..{f0}')
        for a, b in zip(got, got[1:]):
            if a.finish_time != b.start_time:
                raise Violation('slot/chain-gap', f'{what}: {a} {b}')
        model.book(cid, team, at, d, spec.is_independent)
        sim.state((name, len(model.busy), at, d))
    sim.meta['nontrivial'] = len(model.busy) > 2
    sim.probe('bookings', len(model.busy))

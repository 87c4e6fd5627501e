"""P18: what comes out of the pipeline is the plan of the client's project, whatever it was restructured into on the way."""
import re

from dst import ops, snapshot
from dst.choice import Violation
from dst.isolate import attempt, isolated
from dst.oracle import check_schedule, feasible_exists, sched_rows
from dst.props import register
from dst.props.feasibility import environment
from dst.props.service import describe_outcome, outcome_of, same, small
from dst.world import Problem, draw_ids, gen_world

SEP = '_stage_'


def add_overlaps(sim, world):
    """Start-start and finish-finish dependencies, with and without lags (in units of work done)."""
    macro_of = {w: i for i, m in enumerate(world['macros']) for w in m}
    works = world['works']
    for w in works:
        earlier = [p for p in works if macro_of[p['id']] < macro_of[w['id']] and p['priority'] <= w['priority']]
        have = {e[0]: e[2] for e in w['edges']}
        for _ in range(sim.weighted('overlaps', 3, 0.6)):
            if not earlier:
                break
            p = sim.pick('overlap', earlier)
            if p['id'] in have:
                continue
            t = ['SS', 'FF', 'SS+FF'][sim.draw('overlap-type', 3)]
            have[p['id']] = t
            lag = [0, 1, 2, 0.5, 50][sim.draw('overlap-lag', 5)]
            for x in t.split('+'):
                w['edges'].append([p['id'], lag, x])


def contradict(sim, world):
    """Priorities that contradict the dependencies; the pipeline promises to correct them."""
    if sim.flag('ladder', 0.15):
        # many paths between few works
        levels = 6 + sim.draw('levels', 30)
        proto = world['works'][0]
        works, macros, prev = [], [], []
        for i in range(levels):
            row = []
            for j in range(2):
                w = dict(proto, id=f'l{i:02d}{j}', name=f'namel{i:02d}{j}', edges=[[p, 0, 'FS'] for p in prev], priority=3, reqs=[dict(r) for r in proto['reqs']])
                works.append(w)
                macros.append([w['id']])
                row.append(w['id'])
            prev = row
        world['works'], world['macros'], world['spec'] = works, macros, {}
        works[-1]['priority'] = 1
        return
    for m in world['macros']:
        same_prio = 1 + sim.draw('prio', 3)
        for w in world['works']:
            if w['id'] in m:
                w['priority'] = same_prio if sim.flag('same-prio', 0.8) else 1 + sim.draw('prio', 3)


class Stages:
    """How the planned graph divides the works of the client, judged against the client's description."""

    def __init__(self, world, raw_wg):
        self.world, self.raw = world, raw_wg
        parts = {}
        for n in raw_wg.nodes:
            m = re.fullmatch(r'(.*)' + SEP + r'(\d+)', n.id)
            wid, i = (m.group(1), int(m.group(2))) if m else (n.id, 10 ** 9)
            parts.setdefault(wid, []).append((i, n))
        self.parts = {w: [n for _, n in sorted(v, key=lambda x: x[0])] for w, v in parts.items()}

    def check(self):
        out = []
        known = {w['id'] for w in self.world['works']} | {self.raw.start.id, self.raw.finish.id}
        if set(self.parts) != known:
            return [('structure/works', f'planned graph has {sorted(set(self.parts) ^ known)} more or less than the project')]
        for w in self.world['works']:
            ns = self.parts[w['id']]
            units = [n.work_unit for n in ns]
            total = sum(u.volume for u in units)
            if abs(total - w['volume']) > 1e-6 * max(1, w['volume']) or any(u.volume < -1e-9 for u in units):
                out.append(('structure/volume', f'{w["id"]}: stages of {[u.volume for u in units]}, the work is {w["volume"]}'))
            for q in w['reqs']:
                rs = [[r for r in u.worker_reqs if r.kind == q['kind']] for u in units]
                if any(len(r) != 1 for r in rs):
                    out.append(('structure/requirement', f'{w["id"]}: {q} became {rs}'))
                    continue
                rs = [r[0] for r in rs]
                if sum(int(r.volume) for r in rs) != q['volume'] or any(int(r.volume) < 0 for r in rs):
                    out.append(('structure/labour', f'{w["id"]}: {q} became {[int(r.volume) for r in rs]}'))
                if any((r.min_count, r.max_count) != (q['min'], q['max']) for r in rs):
                    out.append(('structure/bounds', f'{w["id"]}: {q} became {rs}'))
            if any(len(u.worker_reqs) != len(w['reqs']) or u.is_service_unit != w['service'] or u.priority != w['priority']
                   or u.group != w['group'] or u.display_name != w['name'] for u in units):
                out.append(('structure/attributes', f'{w["id"]}: {[vars(u) for u in units]}'))
            for a, b in zip(ns, ns[1:]):
                if b.inseparable_parent is not a:
                    out.append(('structure/stages-apart', f'{a.id} and {b.id} are not inseparable'))
        for macro in self.world['macros']:
            for a, b in zip(macro, macro[1:]):
                if self.parts[b][0].inseparable_parent is not self.parts[a][-1]:
                    out.append(('structure/chain', f'{a} and {b} are not inseparable any more'))
        return out

    def expanded(self):
        """The description of what was really planned, for the ordinary oracle (dependencies are judged separately)."""
        w2 = dict(self.world, works=[], macros=[], spec={})
        for w in self.world['works']:
            for n in self.parts[w['id']]:
                u = n.work_unit
                labour = {r.kind: int(r.volume) for r in u.worker_reqs}
                w2['works'].append(dict(w, id=n.id, edges=[], volume=u.volume,
                                        reqs=[dict(q, volume=labour.get(q['kind'], q['volume'])) for q in w['reqs']]))
        for macro in self.world['macros']:
            chain = [n.id for wid in macro for n in self.parts[wid]]
            w2['macros'].append(chain)
            if macro[0] in self.world['spec']:
                for x in chain:
                    w2['spec'][x] = dict(self.world['spec'][macro[0]])
        return w2

    def progress(self, wid, rows, t):
        """Share of the work that is finished for certain at time t."""
        ns = self.parts[wid]
        total = sum(n.work_unit.volume for n in ns) or 1.0
        return sum(n.work_unit.volume for n in ns if rows[n.id]['finish'] <= t) / total

    def untouched(self, wid, rows, t):
        """Share of the work that starts at t or later."""
        ns = self.parts[wid]
        total = sum(n.work_unit.volume for n in ns) or 1.0
        return sum(n.work_unit.volume for n in ns if rows[n.id]['start'] >= t) / total

    def precedence(self, rows, lags):
        out = []
        by_id = {w['id']: w for w in self.world['works']}
        s = {w: rows[ns[0].id]['start'] for w, ns in self.parts.items()}
        f = {w: rows[ns[-1].id]['finish'] for w, ns in self.parts.items()}
        eps = 1e-9
        for w in self.world['works']:
            b = w['id']
            for a, lag, t in w['edges']:
                share = lag / by_id[a]['volume'] if lags and 0 < lag <= by_id[a]['volume'] else 0
                what = f'{a} {t}({lag}) {b}: {a} {s[a]}..{f[a]}, {b} {s[b]}..{f[b]}'
                if t in ('FS', 'IFS') or t == 'FFS' and not lags:
                    ok = s[b] >= f[a]
                elif t == 'SS':
                    ok = s[b] >= s[a] and self.progress(a, rows, s[b]) >= share - eps
                elif t == 'FF':
                    ok = f[b] >= f[a] and self.untouched(b, rows, f[a]) >= share - eps
                else:
                    ok = self.progress(a, rows, s[b]) >= share - eps and self.untouched(b, rows, f[a]) >= share - eps \
                        and s[b] >= s[a] and f[b] >= f[a]
                if not ok:
                    out.append((f'precedence/{t}', what))
        for w in self.world['works']:
            if s[w['id']] < f[self.raw.start.id] or f[w['id']] > s[self.raw.finish.id]:
                out.append(('precedence/project', f'{w["id"]} {s[w["id"]]}..{f[w["id"]]}'))
        for r in self.raw.nodes:
            for e in r.edges_to:
                if rows[r.id]['start'] < rows[e.start.id]['finish']:
                    out.append(('precedence/planned-edge', f'{e.start.id} -> {r.id}'))
        return out

    def united(self, world, project, rows):
        """The plan as the client sees it: one row per work of the project."""
        out = []
        got = {}
        for w in project.schedule.works:
            if w.id in got:
                out.append(('united/duplicate', w.id))
            got[w.id] = w
        if set(got) != set(self.parts):
            out.append(('united/works', f'{sorted(set(got) ^ set(self.parts))}'))
            return out
        price = {c['id']: {k: (p if p is not None else 10) for k, _, p in c['workers']} for c in world['contractors']}
        names = {w['id']: w for w in world['works']}
        for wid, ns in self.parts.items():
            rs = [rows[n.id] for n in ns]
            w = got[wid]
            if (int(w.start_time), int(w.finish_time)) != (rs[0]['start'], rs[-1]['finish']):
                out.append(('united/time', f'{wid}: {w.start_time}..{w.finish_time}, stages {rs}'))
            if w.contractor_id != rs[0]['contractor'] or sorted((x.name, int(x.count), x.contractor_id) for x in w.workers) != rs[0]['workers']:
                out.append(('united/team', f'{wid}: {w}'))
            if wid in names:
                if abs(w.volume - names[wid]['volume']) > 1e-6 * names[wid]['volume']:
                    out.append(('united/volume', f'{wid}: {w.volume} of {names[wid]["volume"]}'))
                if w.display_name != names[wid]['name'] or w.model_name.get('granular_name') != names[wid]['name']:
                    out.append(('united/name', f'{wid}: {w.display_name}, {w.model_name}'))
                cost = sum(price.get(r['contractor'], {}).get(k, 10) * n * (r['finish'] - r['start']) for r in rs for k, n, _ in r['workers'])
                if abs(cost - w.cost) > 1e-6 * max(1, cost):
                    out.append(('united/cost', f'{wid}: {w.cost}, its stages cost {cost}'))
        if int(project.schedule.execution_time) != max(r['finish'] for r in rows.values()):
            out.append(('united/execution-time', f'{project.schedule.execution_time}'))
        return out


def critical_path(world, st, project, rows):
    """The reported critical path is a path of the project and a longest one."""
    from dst.oracle import Findings
    out = Findings()
    head = {}
    length = {}
    for macro in world['macros']:
        chain = [n.id for wid in macro for n in st.parts[wid]]
        for x in chain:
            head[x] = chain[0]
        length[chain[0]] = sum(rows[x]['finish'] - rows[x]['start'] for x in chain) + 1
    for x in (st.raw.start.id, st.raw.finish.id):
        head[x] = x
        length[x] = 1
    succ = {h: set() for h in length}
    for n in st.raw.nodes:
        for e in n.edges_to:
            a, b = head[e.start.id], head[n.id]
            if a != b:
                succ[a].add(b)
    best = {}
    for n in reversed(st.raw.nodes):
        stack = [head[n.id]]
        while stack:
            h = stack[-1]
            missing = [x for x in succ[h] if x not in best]
            if h in best or not missing:
                stack.pop()
                best[h] = length[h] + max((best[x] for x in succ[h]), default=0)
            else:
                stack.extend(missing)
    path = [head[n.id] for n in project.critical_path()]
    dedup = [h for i, h in enumerate(path) if i == 0 or path[i - 1] != h]
    for a, b in zip(dedup, dedup[1:]):
        if b not in succ[a]:
            out.add('critical/not-a-path', f'{a} -> {b} in {path}')
    finish = st.raw.finish.id
    total = sum(length[h] for h in dedup) + (length[finish] if finish not in dedup else 0)
    if total != best[st.raw.start.id]:
        out.add('critical/not-longest', f'{dedup}: {total}, longest {best[st.raw.start.id]}')
    return out


def judge(world, project, start, lags, spec=True):
    st = Stages(world, project.raw_wg)
    f = st.check()
    if f:
        return f, st, None
    rows = {r['id']: r for r in sched_rows(project.raw_schedule)}
    w2 = st.expanded()
    f += check_schedule(w2, project.raw_wg, project.raw_schedule, start,
                        ('complete', 'time', 'chain', 'team', 'contractor', 'capacity', 'duration', 'cost', 'frame')
                        + (('spec',) if spec else ()), use_spec=spec)
    if not f:
        f += st.precedence(rows, lags)
        f += st.united(world, project, rows)
        f += critical_path(world, st, project, rows)
    return f, st, rows


def draw_scheduler(sim, world):
    if sim.flag('ga', 0.15) and len(world['works']) <= 14:
        cfg = ops.draw_ga(sim, 1, 5)
        cfg['gens'] = min(cfg['gens'], 1)
        return cfg
    return ops.draw_heuristic(sim)


MODES = {'none': None, 'FALSE': 'FALSE', 'TRUE': 'TRUE', 'AUTO': 'AUTO'}


@register('P18')
def p18(sim):
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.scheduler.utils.local_optimization import SwapOrderLocalOptimizer
    from sampo.schemas.exceptions import NoSufficientContractorError
    from sampo.schemas.time import Time
    from sampo.structurator import graph_restructuring
    environment(sim)
    world = gen_world(sim, small(sim))
    draw_ids(sim, world)
    mode = sim.pick('mode', list(MODES))
    contradicting = sim.flag('contradicting-priorities', 0.15)
    if contradicting:
        contradict(sim, world)
    elif mode in ('TRUE', 'AUTO') and sim.flag('overlaps-on', 0.7):
        add_overlaps(sim, world)
    generated = sim.flag('generated-contractors', 0.15)
    if generated:
        world['spec'] = {}
        world['productivity'] = []
    cfg = draw_scheduler(sim, world)
    start = sim.weighted('start', 20, 0.6)
    validate = sim.flag('validate', 0.2)
    feasible = generated or feasible_exists(world)
    swap = None
    pr = Problem(world, ops.sim_estimator(world))
    before = snapshot.problem(pr)
    n_heads = len(world['macros']) + 2
    if cfg['kind'] != 'ga' and sim.flag('swap', 0.3):
        # positions in the order of the inseparable chains
        a = sim.draw('area-from', n_heads)
        b = n_heads if sim.flag('area-rest', 0.4) else a + sim.draw('area-len', n_heads - a + 1)
        swap = (a, b)

    def build(pr):
        p = SchedulingPipeline.create().wg(pr.wg).work_estimator(pr.estimator).time_shift(Time(start))
        if generated:
            from sampo.generator.environment import ContractorGenerationMethod
            p = p.contractors((ContractorGenerationMethod[gen[0]], gen[1], gen[2]))
        else:
            p = p.contractors(pr.contractors)
        if sim_spec:
            p = p.spec(pr.spec)
        if mode != 'none':
            p = p.lag_optimize(LagOptimizationStrategy[mode])
        if swap:
            p = p.optimize_local(SwapOrderLocalOptimizer(), range(*swap))
        return p

    gen = None
    if generated:
        gen = (sim.pick('method', ['MIN', 'AVG', 'MAX']), 1 + sim.draw('n', 3), 1 + sim.draw('scale', 3))
    sim_spec = bool(world['spec'])
    sim.event('pipeline', mode, ops.describe(cfg), 'start', start, 'swap', swap, 'generated', gen, 'validate', validate,
              'works', len(world['works']))
    out = sim.meta.setdefault('outcome', {})
    pipe = build(pr)
    done = None
    for attempt_no in range(3):
        if attempt_no < 2 and sim.flag('abort', 0.25):
            pr.estimator.fail_after = sim.draw('fail-after', 300)
        try:
            done = pipe.schedule(ops.make_scheduler(cfg, pr.estimator), validate)
        except ops.InjectedFault:
            sim.fault('estimator failure')
            sim.event('  aborted')
            pr.estimator.fail_after = None
            if sim.flag('new-pipeline', 0.3):
                pipe = build(pr)
            continue
        except NoSufficientContractorError as e:
            pr.estimator.fail_after = None
            out['refused'] = out.get('refused', 0) + 1
            if feasible:
                raise Violation('pipeline/refused', f'{mode} {ops.describe(cfg)}: {e}')
            break
        pr.estimator.fail_after = None
        break
    after = snapshot.problem(pr)
    if contradicting:
        judge_priorities(world, before, after)
    d = snapshot.diff(before, after, 'inputs')
    if d:
        raise Violation('pipeline/inputs', f'{mode} {ops.describe(cfg)}: {d}')
    if done is None:
        return
    if not feasible and mode in ('none', 'FALSE'):
        raise Violation('pipeline/accepted', f'{ops.describe(cfg)}: a plan although no contractor can execute some work')
    projects = done.finish()
    out[mode] = out.get(mode, 0) + 1
    again = done.finish()
    if [snapshot.schedule(p.schedule) for p in projects] != [snapshot.schedule(p.schedule) for p in again]:
        raise Violation('pipeline/finish-twice', f'{mode} {ops.describe(cfg)}: finishing again gave another plan')
    seen = world
    if generated:
        seen = dict(world, contractors=[dict(id=c.id, workers=[[k, w.count, w.cost_one_unit] for k, w in c.workers.items()])
                                        for c in projects[0].contractors])
    lags = mode == 'TRUE'
    for p in projects:
        if p.wg is not pr.wg or not generated and [id(c) for c in p.contractors] != [id(c) for c in pr.contractors]:
            raise Violation('pipeline/project', 'the project refers to other inputs than the client gave')
        if mode == 'AUTO':
            f1, st, rows = judge(seen, p, start, True)
            f2 = judge(seen, p, start, False)[0] if f1 else []
            f = f1 if f1 and f2 else []
        elif mode == 'TRUE':
            f, st, rows = judge(seen, p, start, True)
        else:
            rows = None
            f = check_schedule(seen, p.wg, p.schedule, start)
            f += check_schedule(seen, p.wg, p.raw_schedule, start)
            st = Stages(seen, p.raw_wg)
            if not f:
                raw = {r['id']: r for r in sched_rows(p.raw_schedule)}
                f += critical_path(seen, st, p, raw)
        ops.raise_findings('pipeline/', [(s, f'{mode} {ops.describe(cfg)} start={start} swap={swap}: {m}') for s, m in f])
        sim.state((mode, cfg['kind'], bool(swap), len(p.raw_wg.nodes), int(p.schedule.execution_time)))
        sim.event('  ->', int(p.schedule.execution_time), len(p.raw_wg.nodes))
    sim.meta['nontrivial'] = len(world['works']) > 1
    if generated or swap or contradicting:
        return
    # the same as asking the scheduler itself
    def direct(lag):
        def go():
            q = Problem(world, ops.sim_estimator(world))
            if lag is not None:
                q.wg = graph_restructuring(q.wg, lag)
                spread_spec(q, world)
            return outcome_of(ops.plan(cfg, q, start))
        return isolated(go)
    got = ('ok', [snapshot.schedule(p.raw_schedule) for p in projects])
    if mode == 'AUTO':
        if cfg['kind'] in ('ga', 'rlft', 'rtopo'):
            return             # their second search goes on with the random state of the first
        best = []
        for lag in (False, True):
            r = direct(lag)
            if r[0] == 'ok':
                best.append(min(max(row[2] for row in s) for s in r[1]))
        mine = min(max(row[2] for row in s) for s in got[1])
        if best and mine > min(best):
            raise Violation('pipeline/not-best', f'{ops.describe(cfg)}: finished at {mine}, the variants at {best}')
        return
    ref = direct(True if mode == 'TRUE' else None)
    d = same(ref, ('ok', got[1]))
    if d:
        raise Violation('pipeline/direct', f'{mode} {ops.describe(cfg)} start={start}: scheduler and pipeline differ: {d}')


def judge_priorities(world, before, after):
    """Priorities were corrected downwards and agree with the dependencies now; forget them for the comparison that follows."""
    now = {}
    for b, a in zip(before['graph']['nodes'], after['graph']['nodes']):
        was, got = b['unit'].pop('priority'), a['unit'].pop('priority')
        now[a['unit']['id']] = got
        if got > was:
            raise Violation('pipeline/priority', f'{a["unit"]["id"]}: {was} became {got}')
    by_id = {w['id']: w for w in world['works']}
    for w in world['works']:
        w['priority'] = now[w['id']]
        for p, _, t in w['edges']:
            if now[p] > now[w['id']]:
                raise Violation('pipeline/priority', f'{p} ({now[p]}) is less urgent than {w["id"]} ({now[w["id"]]}), which depends on it; '
                                                     f'given {by_id[p]["priority"]}')


def spread_spec(q, world):
    """The client's terms for a work hold for all its stages."""
    for n in q.wg.nodes:
        m = re.fullmatch(r'(.*)' + SEP + r'(\d+)', n.id)
        if m and m.group(1) in world['spec']:
            q.spec._work2spec[n.id] = q.spec._work2spec[m.group(1)]

"""P21: a project read from tables is the project the tables describe."""
import datetime
import os

from dst import ops
from dst.choice import Violation
from dst.props import register
from dst.props.edit import content, read
from dst.simdisk import DISK
from dst.world import Profile, gen_world

DEP = ('FS', 'IFS', 'FFS')
ZONES = ['gate', 'door', 'crane']


def bad(what, msg):
    raise Violation(f'table/{what}', msg)


def rename(sim, world):
    """Ids as people write them."""
    style = sim.draw('ids', 4)
    new = {}
    for i, w in enumerate(world['works']):
        if style == 0:
            new[w['id']] = w['id']
        elif style == 1:
            new[w['id']] = str(100 + 7 * i)
        elif style == 2:        # numbers of sections
            new[w['id']] = f'{1 + i // 4}.{1 + i % 4}'
        else:
            new[w['id']] = f'a{i}-{i * 31 % 17:04x}'
    for w in world['works']:
        w['id'] = new[w['id']]
        for e in w['edges']:
            e[0] = new[e[0]]
    world['macros'] = [[new[x] for x in m] for m in world['macros']]


def loops(links):
    """Links that lie on a loop."""
    nxt = {}
    for a, b in links:
        nxt.setdefault(a, set()).add(b)

    def reach(x):
        seen, todo = set(), [x]
        while todo:
            for z in nxt.get(todo.pop(), ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
        return seen

    r = {x: reach(x) for x in nxt}
    return {(a, b) for a, b in links if a in r.get(b, ()) or a == b}


class Described:
    """The project as its tables describe it."""

    def __init__(self, sim):
        self.sim = sim
        small = sim.flag('with-history', 0.35)
        self.world = gen_world(sim, Profile(max_macros=4 if small else 7, spec=False, productivity=False, max_contractors=2,
                                            optional_cost=False, hetero=False))
        rename(sim, self.world)
        self.works = self.world['works']
        macro_of = {w: i for i, m in enumerate(self.world['macros']) for w in m}
        self.typed = sim.flag('typed', 0.4)
        self.zoned = sim.flag('zoned', 0.2)
        for w in self.works:
            w['name'] = f'работа {w["id"]}' if sim.flag('cyrillic', 0.3) else f'work {w["id"]}'
            w['granular'] = f'kind of {w["id"]}'
            w['unit'] = ['m3', 'шт', 'km'][sim.draw('unit', 3)]
            w['volume'] = [w['volume'], 0.0, 12.5, 1496.0][sim.weighted('volume', 4, 0.6)]
            if self.typed:
                earlier = [p['id'] for p in self.works if macro_of[p['id']] < macro_of[w['id']] and p['id'] not in {e[0] for e in w['edges']}]
                if earlier and sim.flag('overlap', 0.4):
                    w['edges'].append([sim.pick('overlap-with', earlier), [0, 1, 2.5][sim.draw('overlap-lag', 3)], ['SS', 'FF', 'FFS'][sim.draw('overlap-type', 3)]])
            w['statuses'] = [[z, sim.draw('status', 3)] for z in ZONES if self.zoned and sim.flag('status', 0.4)]
            w['text'] = f'about {w["id"]}'
        self.knotted = False
        if len(self.works) > 1 and sim.flag('looped', 0.2):
            for _ in range(1 + sim.draw('nloops', 2)):
                w = sim.pick('loop-to', self.works)
                p = sim.pick('loop-from', [x for x in self.works if macro_of[x['id']] >= macro_of[w['id']]])
                if p['id'] not in {e[0] for e in w['edges']}:
                    w['edges'].append([p['id'], 0, 'FS'])
                    self.knotted = True      # maybe a loop through a chain
        self.links = {(p, w['id']): (float(lag), t) for w in self.works for p, lag, t in w['edges']}
        self.on_loop = loops(self.links)
        self.looped = bool(self.on_loop)
        self.names_in = ['model', 'granular', 'mapper', 'activity'][sim.draw('names-in', 4)]
        self.has_reqs = sim.flag('has-reqs', 0.6)
        self.cols = {c: sim.flag('has-' + c, 0.6) for c in ('description', 'group', 'priority')}
        self.history = None
        if small:
            self.make_history()

    def make_history(self):
        """Earlier sites, each of which did some of the works one after another or at random."""
        sim = self.sim
        self.orderly = not self.knotted and sim.flag('orderly', 0.45)
        order = [w['granular'] for w in self.works]      # an order that agrees with the links
        # the works overlap, and they do so in the same way on every site
        self.pattern = None
        if not self.knotted and not self.orderly and sim.flag('patterned', 0.6):
            self.pattern, at = {}, 0
            for x in order:
                at += 1 + sim.draw('later-by', 6)
                self.pattern[x] = (at, at + 1 + sim.draw('pattern-days', 16))
        rows, self.sites = [], []
        for s in range(1 + sim.draw('sites', 3)):
            day = datetime.date(2001, 1, 1) + datetime.timedelta(sim.draw('site-day', 900))
            names = [x for x in order if sim.flag('done-there', 0.7)] + ([f'other {s}'] if sim.flag('other', 0.5) else [])
            self.sites.append(set(names))
            for x in names:
                if self.pattern is not None:
                    a, b = self.pattern.get(x, (3, 4))
                    rows.append(dict(granular_name=x, first_day=str(day + datetime.timedelta(a)), last_day=str(day + datetime.timedelta(b)),
                                     upper_works=f'site {s}'))
                    continue
                n = 1 + sim.draw('days', 20)
                first = day if self.orderly else day + datetime.timedelta(sim.draw('overlapping', 30))
                rows.append(dict(granular_name=x, first_day=str(first), last_day=str(first + datetime.timedelta(n)), upper_works=f'site {s}'))
                day = first + datetime.timedelta(n + sim.draw('pause', 5)) if self.orderly else day
        self.history = sim.shuffle('history-rows', rows)

    def by_pattern(self, a, b):
        """The link of two works, the first of which has always begun before the second one."""
        (s1, f1), (s2, f2) = self.pattern[a], self.pattern[b]
        if s2 >= f1:
            return 0.0, 'FS'
        return round((s2 - s1) / (f1 - s1), 2), 'FFS' if f2 >= f1 else 'SS'

    def frame(self):
        import pandas as pd
        sim = self.sim
        rows = []
        for w in self.works:
            edges = sim.shuffle('preds', w['edges'])
            unknown = [[f'unknown-{w["id"]}', 0, 'FS']] if sim.flag('unknown', 0.1) else []
            edges = edges + unknown if sim.flag('unknown-last') else unknown + edges
            row = dict(activity_id=w['id'], activity_name=w['name'], volume=w['volume'], measurement=w['unit'],
                       predecessor_ids=','.join(str(e[0]) for e in edges), connection_types=','.join(e[2] for e in edges),
                       lags=','.join(str(e[1]) for e in edges))
            if self.names_in == 'model':
                row['model_name'] = str({'granular_name': w['granular'], 'measurement': w['unit']})
            elif self.names_in == 'granular':
                row['granular_name'] = w['granular']
            if self.has_reqs:
                for col, key in (('min_req', 'min'), ('max_req', 'max'), ('req_volume', 'volume')):
                    row[col] = str({r['kind']: r[key] for r in w['reqs']})
            if self.cols['description']:
                row['description'] = w['text']
            if self.cols['group']:
                row['group'] = w['group']
            if self.cols['priority']:
                row['priority'] = w['priority']
            if self.zoned:
                row['required_statuses'] = str(dict(map(tuple, w['statuses'])))
            rows.append(row)
        return pd.DataFrame(sim.shuffle('rows', rows))

    def mapper(self):
        from sampo.utilities.name_mapper import DictNameMapper
        return DictNameMapper({w['name']: w['granular'] for w in self.works}) if self.names_in == 'mapper' else None

    def granular(self, w):
        return w['name'] if self.names_in == 'activity' else w['granular']


def recording(est, log):
    real = est.find_work_resources

    def find_work_resources(model_name, work_volume, resource_name=None):
        if not isinstance(model_name, dict):
            bad('estimator', f'the estimator is asked about {model_name!r}')
        out = real(model_name, work_volume, resource_name)
        log.setdefault(model_name['granular_name'], []).append((float(work_volume), out))
        return out

    est.find_work_resources = find_work_resources
    return est


def judge(d, wg, mode, log):
    m = read(wg)
    by_id = {w['id']: w for w in d.works}
    got = {n.id: n for n in wg.nodes if n is not wg.start and n is not wg.finish}
    if set(got) != set(by_id):
        bad('works', f'missing {sorted(set(by_id) - set(got))[:4]}, unexpected {sorted(set(got) - set(by_id))[:4]}')
    for wid, w in by_id.items():
        u = got[wid].work_unit
        want = dict(id=wid, name=w['name'], model={'granular_name': d.granular(w), 'measurement': w['unit']}, volume=w['volume'],
                    priority=w['priority'] if d.cols['priority'] else 1, group=w['group'] if d.cols['group'] else 'main project',
                    description=w['text'] if d.cols['description'] else '', zones=[(z, s) for z, s in w['statuses']])
        have = dict(id=u.id, name=u.display_name, model=u.model_name, volume=u.volume, priority=u.priority, group=u.group,
                    description=u.description, zones=[(z.kind, z.required_status) for z in u.zone_reqs])
        if want != have:
            bad('content', f'{wid}: {({k: (want[k], have[k]) for k in want if want[k] != have[k]})}')
        reqs = [(r.kind, int(r.volume), r.min_count, r.max_count) for r in u.worker_reqs]
        if d.has_reqs:
            want = [(r['kind'], r['volume'], r['min'], r['max']) for r in w['reqs']]
            if sorted(reqs) != sorted(want):
                bad('requirements', f'{wid}: {reqs}, the table says {want}')
        else:
            est = log.get(d.granular(w), [])
            if not any(v == w['volume'] and o is u.worker_reqs for v, o in est):
                bad('requirements', f'{wid}: {reqs} are not what the estimator said')
        if bool(u.is_service_unit) != (not u.worker_reqs):
            bad('service', f'{wid}: service work {u.is_service_unit} with requirements {reqs}')
    links = {}
    for n in got.values():
        for e in n.edges_to:
            if e.start is not wg.start:
                if (e.start.id, n.id) in links:
                    bad('links', f'{e.start.id} -> {n.id} twice')
                if not isinstance(e.lag, (int, float)):
                    bad('links', f'{e.start.id} -> {n.id}: lag {e.lag!r}')
                links[e.start.id, n.id] = (float(e.lag), e.type.value)
    changed = {k for k in links if links[k] != d.links.get(k)}
    lost = set(d.links) - set(links)
    if loops(links):
        bad('loops', f'{sorted(loops(links))[:4]}')
    if mode == 'given':
        if changed:
            bad('links', f'{[(k, links[k], "given", d.links.get(k)) for k in sorted(changed)[:4]]}')
        if lost - d.on_loop:
            bad('links', f'lost {sorted(lost - d.on_loop)[:4]}')
    else:
        g = {w['id']: d.granular(w) for w in d.works}
        met = {(a, b) for a in g for b in g if a != b and any(g[a] in s and g[b] in s for s in d.sites)}
        if changed - met:
            bad('history-links', f'{sorted(changed - met)[:4]} never met on a site')
        if mode == 'fill' and any(k in d.links for k in changed):
            bad('history-links', f'given links changed: {sorted(k for k in changed if k in d.links)[:4]}')
        if (lost if mode == 'fill' else lost - met) - d.on_loop:
            bad('links', f'lost {sorted(lost - d.on_loop)[:4]} ({mode})')
        if d.orderly or d.pattern is not None:
            pos = {w['id']: i for i, w in enumerate(d.works)}
            want = {(a, b): (0.0, 'FS') if d.orderly else d.by_pattern(g[a], g[b]) for a, b in met if pos[a] < pos[b]}
            want = {**d.links, **want} if mode == 'fix' else {**want, **d.links}
            if links != want:
                diff = sorted(k for k in set(links) | set(want) if links.get(k) != want.get(k))[:4]
                bad('history-links', f'{mode}: {[(k, links.get(k), "expected", want.get(k)) for k in diff]}')
    return m


def attempt_read(sim, what, call, path):
    """A read that may meet a faulty disk; returns what the undisturbed read gives."""
    fault = sim.draw('read-fault', 5) if path else 0
    if fault in (1, 2):
        hidden = path + '.away'
        if fault == 1:
            os.rename(path, hidden)
            sim.fault('file missing')
        else:
            DISK.arm('io error', sim.draw('at', 4))
        try:
            call()
        except Exception as e:
            sim.event(what, 'failed with', type(e).__name__)
        else:
            if fault == 1 or DISK.ops > DISK.fault_at[0]:
                bad('fault', f'{what} succeeded although its file could not be read')
        finally:
            DISK.disarm()
            if fault == 1:
                os.rename(hidden, path)
    DISK.short = 40 if fault == 3 else 0
    try:
        return call()
    finally:
        DISK.short = 0


@register('P21')
def p21(sim):
    from sampo.pipeline.preparation import PreparationPipeline
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    d = Described(sim)
    DISK.attach(sim)
    frame = d.frame()
    sep = [';', '|', '\t'][sim.draw('sep', 3)]
    hist, mode = None, 'given'
    if d.history is not None:
        import pandas as pd
        hist = pd.DataFrame(d.history, columns=['granular_name', 'first_day', 'last_day', 'upper_works'])
        mode = ['fill', 'fix', 'given', 'fill', 'fix'][sim.draw('history-mode', 5)]
    path = None
    table = frame
    if sim.flag('from-file', 0.6):
        path = os.path.join(DISK.root, 'works.csv')
        frame.to_csv(path, sep=sep, index=sim.flag('with-index', 0.3))
        table = path
        if hist is not None and len(hist):
            p = os.path.join(DISK.root, 'history.csv')
            hist.to_csv(p, sep=sep, index=False)
            hist = p
    sim.event('table of', len(d.works), 'works,', len(d.links), 'links', 'looped' if d.looped else '', 'names in', d.names_in, 'mode', mode,
              'file' if path else 'frame')
    before = frame.to_dict()
    log = {}
    est = recording(DefaultWorkEstimator(), log)

    def build():
        log.clear()
        p = PreparationPipeline(table).sep_wg(sep).sep_history(sep).work_estimator(est)
        if hist is not None:
            p.history(hist)
        if d.mapper() is not None:
            p.name_mapper(d.mapper())
        if mode == 'fill':
            p.fill_edges_with_history()
        if mode == 'fix':
            p.fix_edges_with_history()
        return p.build_wg()

    wg = attempt_read(sim, 'reading works', build, path)
    m = judge(d, wg, mode, log)
    sim.event('order', [n.id for n in wg.nodes], [(r.kind, int(r.volume), r.min_count) for n in wg.nodes for r in n.work_unit.worker_reqs])
    if path is None and frame.to_dict() != before:
        bad('frame', 'reading changed the frame of the client')
    if mode == 'given' and d.has_reqs and sim.flag('again', 0.5):
        judge(d, build(), mode, log)
    if sim.flag('own-table', 0.5):
        own_table(sim, d, wg, m)
    if not d.knotted and d.has_reqs and not d.zoned and sim.flag('plan', 0.5):
        plan(sim, d, table, sep, path)
    sim.state((len(d.works), len(m.edges), mode, d.names_in))
    sim.meta['nontrivial'] = len(d.works) > 1


def own_table(sim, d, wg, m):
    """The table of a graph reads back as the graph."""
    from sampo.pipeline.preparation import PreparationPipeline
    if not d.has_reqs:
        for n in wg.nodes:
            n.work_unit.worker_reqs = [r for r in n.work_unit.worker_reqs if r.min_count > 0]
    wg2 = PreparationPipeline(wg).build_wg()
    m2 = read(wg2)

    def view(g):
        return {n.id: (n.work_unit.display_name, n.work_unit.model_name, n.work_unit.volume, n.work_unit.priority,
                       sorted((r.kind, int(r.volume), r.min_count, r.max_count) for r in n.work_unit.worker_reqs),
                       sorted((e.start.id, float(e.lag), e.type.value) for e in n.edges_to if e.start is not g.start))
                for n in g.nodes if n is not g.start and n is not g.finish}
    a, b = view(wg), view(wg2)
    if a != b:
        bad('own-table', f'{[(k, a.get(k), "read back as", b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:2]}')


def read_contractors(sim, d, sep):
    """Contractors by a table, a file, a list or generated; and what must be known of them."""
    import pandas as pd
    how = ['frame', 'file', 'list', 'generated'][sim.draw('contractors-by', 4)]
    kinds = sorted({r['kind'] for w in d.works for r in w['reqs']})
    if how == 'generated':
        from sampo.generator.environment import ContractorGenerationMethod
        n = 1 + sim.draw('n-generated', 3)
        return how, (sim.pick('method', list(ContractorGenerationMethod)), n, 1 + sim.draw('scaler', 3)), None
    need = {k: max(r['max'] for w in d.works for r in w['reqs'] if r['kind'] == k) for k in kinds}
    rows = [dict(contractor_id=10 + i, name=f'builder {i}', **{k: need[k] + sim.draw('crew', 4) for k in kinds}) for i in range(1 + sim.draw('n-contractors', 2))]
    want = {str(r['contractor_id']): (r['name'], {k: r[k] for k in kinds}) for r in rows}
    if how == 'list':
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.resources import Worker
        return how, [Contractor(id=c, name=n, workers={k: Worker(f'{c}{k}', k, x, contractor_id=c) for k, x in ws.items()}) for c, (n, ws) in want.items()], want
    df = pd.DataFrame(rows)
    if how == 'frame':
        return how, df, want
    p = os.path.join(DISK.root, 'contractors.csv')
    df.to_csv(p, sep=';', index=False)
    return how, p, want


def plan(sim, d, table, sep, path):
    from sampo.pipeline import SchedulingPipeline
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    how, contractors, want = read_contractors(sim, d, sep)
    cfg = ops.draw_heuristic(sim, allow=['heft', 'hb', 'topo', 'lft'], ropt=False)
    sim.event('plan', cfg['kind'], 'contractors by', how)

    def go():
        est = ops.sim_estimator(dict(productivity=[]))
        p = SchedulingPipeline.create().wg(table, sep=sep, all_connections=True).contractors(contractors).work_estimator(est)
        if d.mapper() is not None:
            p = p.name_mapper(d.mapper())
        return p.schedule(ops.make_scheduler(cfg, est), validate=True).finish()[0]

    proj = attempt_read(sim, 'planning', go, path)
    cs = {c.id: (c.name, {w.name: w.count for w in c.workers.values()}) for c in proj.contractors}
    if want is not None:
        if cs != want:
            bad('contractors', f'{cs}, the table says {want}')
        if any(w.contractor_id != c.id for c in proj.contractors for w in c.workers.values()):
            bad('contractors', 'people of another contractor')
    else:
        if len(cs) != contractors[1]:
            bad('contractors', f'{len(cs)} generated, asked for {contractors[1]}')
        for w in d.works:
            for c, (_, ws) in cs.items():
                if any(ws.get(r['kind'], 0) < r['min'] for r in w['reqs']):
                    bad('contractors', f'generated contractor {c} {ws} cannot do {w["id"]} {w["reqs"]}')
    sim.event('planned', [(w.id, int(w.start_time), int(w.finish_time), w.contractor, [(x.name, x.count) for x in w.workers])
                          for w in proj.schedule.works])
    at = {w.id: (int(w.start_time), int(w.finish_time)) for w in proj.schedule.works}
    if not {w['id'] for w in d.works} <= set(at):
        bad('plan', f'not planned: {sorted({w["id"] for w in d.works} - set(at))[:4]}')
    for (p, c), (lag, t) in d.links.items():
        if t in DEP and at[c][0] < at[p][1] + int(lag):
            bad('plan', f'{cfg["kind"]}: {c} starts {at[c][0]}, its predecessor {p} finishes {at[p][1]}, lag {lag} {t}')

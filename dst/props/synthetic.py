"""P25: the generator of synthetic projects, contractors and sites."""
import copy
import hashlib
import math
import random as _random

from dst import ops, seams, simpool, snapshot
from dst.choice import Violation
from dst.isolate import attempt, isolated
from dst.oracle import check_schedule, feasible_exists, sched_rows
from dst.props import register
from dst.props.feasibility import environment
from dst.props.sites import judge_crash
from dst.supply import check_supply, deliveries_of
from dst.world import Profile, Problem, gen_world

KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']
# workers of each kind in one pack
PACK = {'driver': 6, 'fitter': 6, 'handyman': 8, 'electrician': 2, 'manager': 3, 'engineer': 2}
BIGGEST = 172          # works of the biggest cluster with an additional one
NAMES = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal']
PARTS = ('complete', 'time', 'precedence', 'team', 'contractor', 'capacity', 'duration')


def want(cond, what, msg):
    if not cond:
        raise Violation('synthetic/' + what, msg)


# ------------------------------------------------------------------ steps of a client
def draw_borders(sim):
    b = dict(counts=0, bottom=0, top=0)
    how = sim.draw('borders', 6)
    if how in (0, 4):
        b['counts'] = 1 + sim.weighted('counts', 5, 0.3)
    if how in (1, 3):
        b['bottom'] = 1 + sim.draw('bottom', 150)
    if how in (2, 3, 4):
        b['top'] = [60, 100, 150, 220, 20, 45, 330][sim.draw('top', 7)] + sim.draw('top+', 40)
    if how == 5:
        b['counts'], b['bottom'] = 1 + sim.draw('counts', 4), 1 + sim.draw('bottom', 150)
    return b


def draw_step(sim, has):
    what = sim.pick('step', ['small', 'graph', 'graph', 'custom', 'advanced', 'contractor', 'sample'] + (
        ['names', 'kinds', 'materials', 'materials', 'landscape', 'suits', 'plan'] if has else ['graph']))
    s = dict(what=what)
    if what == 'small':
        s['prefix'] = ['C1', 'K', 'North'][sim.draw('prefix', 3)]
    elif what in ('graph', 'custom'):
        s['mode'] = sim.pick('mode', ['GENERAL', 'PARALLEL', 'SEQUENTIAL'])
        s.update(draw_borders(sim))
        if what == 'custom':
            s['prefix'] = ['C', 'North'][sim.draw('prefix', 2)]
            s['branching'] = [0.15, 0, 1.0][sim.draw('branching', 3)]
            s['addition'] = [0.25, 0, 1.0][sim.draw('addition', 3)]
    elif what == 'advanced':
        s.update(top=[60, 100, 150][sim.draw('top', 3)], names=1 + sim.draw('names', 70), kinds=1 + sim.draw('kinds', 24))
    elif what in ('names', 'kinds'):
        s['n'] = 1 + sim.draw('n', 80 if what == 'names' else 30)
    elif what == 'materials':
        s['of'] = None if sim.flag('default-names', 0.4) else sim.shuffle('of', NAMES)[:1 + sim.draw('n-of', 6)]
        n = len(s['of'] or NAMES)
        s['bottom'] = sim.draw('mat-bottom', n + 1) if sim.flag('mat-bottom-given', 0.5) else None
        low = s['bottom'] if s['bottom'] is not None else 0
        s['top'] = low + sim.draw('mat-top', n - low + 1) if sim.flag('mat-top-given', 0.5) else None
        if sim.flag('too-many', 0.08):
            s['top'] = n + 1 + sim.draw('more', 3)
    elif what == 'contractor':
        s['pack'] = [1, 5, 20, 1.5, 7.3, 60][sim.draw('pack', 6)]
        s['how'] = sim.pick('how', ['simple', 'scatter', 'types', 'equal'])
        s['sigma'] = [0.1, 0, 1.0, 5.0][sim.draw('sigma', 4)]
        s['types'] = sim.shuffle('types', KINDS)[:1 + sim.draw('n-types', 6)]
    elif what == 'suits':
        s['scaler'] = [1, 2, 1.5, 3.7][sim.draw('scaler', 4)]
        s['method'] = sim.pick('method', ['AVG', 'MIN', 'MAX'])
    elif what == 'plan':
        s['scaler'] = [1, 2][sim.draw('scaler', 2)]
        s['kind'] = sim.pick('kind', ['topo', 'heft', 'lft'])
        s['method'] = sim.pick('method', ['AVG', 'MIN', 'MAX'])
    elif what == 'sample':
        s['n'] = 1 + sim.draw('samples', 4)
        s['vol'], s['count'] = [[1, 50], [3, 3], [1, 200]][sim.draw('vol', 3)], [[1, 100], [2, 6], [4, 4]][sim.draw('cnt', 3)]
        s['scale'] = [1.0, 0.5, 2.5][sim.draw('scale', 3)]
    return s


class Client:
    """One generator, the graph it made last and everything it made."""

    def __init__(self, seed, by_object, sampler_seed):
        from sampo.generator.base import SimpleSynthetic
        from sampo.utilities.sampler import Sampler
        r = _random.Random(seed) if by_object else None
        self.ss = SimpleSynthetic(r if by_object else seed)
        self.rand = self.ss.get_rand()
        if by_object:
            want(self.rand is r, 'seed', 'the generator does not use the random numbers given')
        self.sampler = Sampler(sampler_seed)
        self.wg = None
        self.made = []              # (what, object, digest when it was made)

    def do(self, s, judge):
        what = s['what']
        if what == 'small':
            self.wg = self.ss.small_work_graph(s['prefix'])
            judge and judge_small(s, self.wg)
            return self.keep(what, self.wg, snapshot.graph(self.wg))
        if what in ('graph', 'custom'):
            self.wg = make(self, s)
            judge and judge_graph(s, self.wg)
            return self.keep(what, self.wg, snapshot.graph(self.wg))
        if what == 'advanced':
            self.wg = self.ss.advanced_work_graph(s['top'], s['names'], s['kinds'])
            judge and judge_advanced(s, self.wg)
            return self.keep(what, self.wg, snapshot.graph(self.wg))
        if what in ('names', 'kinds'):
            from sampo.generator.pipeline.extension import extend_names, extend_resources
            old, before = self.wg, snapshot.graph(self.wg)
            self.wg = (extend_names if what == 'names' else extend_resources)(s['n'], old, self.rand)
            after = snapshot.graph(self.wg)
            judge and judge_extended(s, before, after)
            d = snapshot.diff(before, snapshot.graph(old), 'graph')
            want(d is None, 'input-changed', f'{s}: {d}')
            return self.keep(what, self.wg, after)
        if what == 'materials':
            return self.materials(s, judge)
        if what == 'landscape':
            l = self.ss.synthetic_landscape(self.wg)
            land = read_landscape(l)
            judge and judge_landscape(self.wg, l, land)
            return land
        if what == 'contractor':
            return self.contractor(s, judge)
        if what in ('suits', 'plan'):
            from sampo.generator.environment.contractor_by_wg import ContractorGenerationMethod, get_contractor_by_wg
            c = get_contractor_by_wg(self.wg, s['scaler'], ContractorGenerationMethod[s['method']], 'own-id', 'own name')
            judge and judge_suits(s, self.wg, c)
            if what == 'plan' and len(self.wg.nodes) <= 110:
                return self.plan(s, c, judge)
            return workers_of(c)
        return self.sample(s, judge)

    def keep(self, what, wg, digest):
        self.made = [m for m in self.made if m[1] is not wg] + [(what, wg, digest)]
        return digest

    def materials(self, s, judge):
        n = len(s['of'] or NAMES)
        before = snapshot.graph(self.wg)
        of = None if s['of'] is None else list(s['of'])
        if max(s['bottom'] or 0, s['top'] or 0) > n:
            try:
                self.ss.set_materials_for_wg(self.wg, of, s['bottom'], s['top'])
            except ValueError:
                return 'refused'
            raise Violation('synthetic/materials', f'{s}: more kinds asked for than there are, not refused')
        wg = self.ss.set_materials_for_wg(self.wg, of, s['bottom'], s['top'])
        want(of == s['of'], 'input-changed', f'names of materials: {of}')
        after = snapshot.graph(wg)
        if judge:
            low = s['bottom'] if s['bottom'] is not None else min(2 if s['of'] is None else n // 2,
                                                                  n if s['top'] is None else s['top'])
            high = n if s['top'] is None else s['top']
            for w in wg.nodes:
                u = w.work_unit
                names = [r.kind for r in u.material_reqs]
                if u.is_service_unit:
                    want(not names, 'materials', f'service work with {names}')
                    continue
                want(len(set(names)) == len(names), 'materials', f'{s}: {names}')
                want(set(names) <= set(s['of'] or NAMES), 'materials', f'{s}: {names}')
                want(low <= len(names) <= high, 'materials', f'{s}: {len(names)} kinds, {low}..{high} asked for')
                want(all(isinstance(r.count, int) and r.count > 0 for r in u.material_reqs), 'materials', f'{u.material_reqs}')
            for x in before['nodes'] + after['nodes']:
                x['unit'].pop('materials')
            d = snapshot.diff(before, after, 'graph')
            want(d is None, 'materials', f'something else changed: {d}')
            after = snapshot.graph(wg)
        self.wg = wg
        return self.keep('materials', wg, after)

    def contractor(self, s, judge):
        from sampo.generator.environment.contractor import get_contractor, get_contractor_with_equal_proportions
        if s['how'] == 'equal':
            # these take their random numbers from nobody in particular
            n = max(1, int(s['pack']))
            cs = get_contractor_with_equal_proportions(n, 3) if n % 2 else get_contractor_with_equal_proportions([n, n, n], 3)
            if judge:
                want(len(cs) == 3 and len({c.id for c in cs}) == 3, 'contractor', f'{cs}')
                for c in cs:
                    judge_contractor(dict(s, pack=n, types=KINDS), c)
            return 3
        if s['how'] == 'simple':
            c = self.ss.contractor(s['pack'])
        elif s['how'] == 'scatter':
            c = get_contractor(s['pack'], s['sigma'], rand=self.rand, contractor_name='own name')
        else:
            c = get_contractor(s['pack'], s['sigma'], available_worker_types=list(s['types']), rand=self.rand)
        judge and judge_contractor(s if s['how'] == 'types' else dict(s, types=KINDS), c)
        return snapshot.contractors([c])

    def sample(self, s, judge):
        from sampo.utilities.sampler.types import MinMax
        from sampo.schemas.graph import EdgeType
        out, node = [], None
        for i in range(s['n']):
            kw = dict(req_volume=MinMax(*s['vol']), req_worker_count=MinMax(*s['count']), work_volume=MinMax(2.0, 9.0))
            edges = [(node, 1, EdgeType.FinishStart)] if node is not None else []
            node = self.sampler.graph_node(f'work {i}', edges, group='g', **kw)
            u = node.work_unit
            like = self.sampler.similar_graph_node(node, [], s['scale'])
            if judge:
                kinds = [r.kind for r in u.worker_reqs]
                want(kinds and len(set(kinds)) == len(kinds) and set(kinds) <= set(KINDS), 'sample', f'{kinds}')
                want(2.0 <= u.volume <= 9.0 and u.group == 'g' and u.model_name['granular_name'] == f'work {i}', 'sample', f'{vars(u)}')
                for r in u.worker_reqs:
                    want(s['vol'][0] <= int(r.volume) <= s['vol'][1], 'sample', f'{r} {s}')
                    want(s['count'][0] <= r.min_count <= r.max_count <= s['count'][1], 'sample', f'{r} {s}')
                want([r.kind for r in like.work_unit.worker_reqs] == kinds and like.id != node.id, 'sample', 'similar work differs')
                want(abs(like.work_unit.volume - u.volume * s['scale']) < 1e-9, 'sample', 'volume of a similar work')
                for a, b in zip(u.worker_reqs, like.work_unit.worker_reqs):
                    want(a.min_count == b.min_count <= b.max_count, 'sample', f'{a} like {b}')
            like.work_unit.model_name['granular_name'] = 'another'
            want(u.model_name['granular_name'] == f'work {i}', 'sample', 'a similar work shares its model with the exemplar')
            out.append([snapshot.work_unit(u), snapshot.work_unit(like.work_unit)])
        return out

    def plan(self, s, c, judge):
        from sampo.schemas.time_estimator import DefaultWorkEstimator
        if any(n.work_unit.material_reqs for n in self.wg.nodes):
            return workers_of(c)           # a project with materials is planned on a site
        if any(r.kind not in KINDS for n in self.wg.nodes for r in n.work_unit.worker_reqs):
            return workers_of(c)           # the default estimator knows no other kinds
        sch = ops.make_scheduler(dict(kind=s['kind'], timeline='momentum', order='lft', pool=None), DefaultWorkEstimator(_random.Random(3)))
        schedule = sch.schedule(self.wg, [c])[0]
        rows = sched_rows(schedule)
        if judge:
            f = check_schedule(world_of(self.wg, c), self.wg, schedule, 0, PARTS, rows=rows)
            ops.raise_findings('synthetic/plan/', [(sig, f'{s}: {msg}') for sig, msg in f])
        return [(r['id'], r['start'], r['finish']) for r in rows]


def make(client, s):
    from sampo.generator import SyntheticGraphType
    from sampo.generator.pipeline.project import get_graph
    mode = SyntheticGraphType[s['mode']]
    if s['what'] == 'graph':
        return client.ss.work_graph(mode, s['counts'], s['bottom'], s['top'])
    return get_graph(mode=mode, cluster_name_prefix=s['prefix'], cluster_counts=s['counts'], branching_probability=s['branching'],
                     addition_cluster_probability=s['addition'], bottom_border=s['bottom'], top_border=s['top'], rand=client.rand)


def workers_of(c):
    return sorted((k, w.count) for k, w in c.workers.items())


# ------------------------------------------------------------------ what a project has to be
def judge_shape(wg):
    nodes = wg.nodes
    ids = [n.id for n in nodes]
    want(len(set(ids)) == len(ids) == wg.vertex_count, 'shape', f'{len(ids)} works, {len(set(ids))} ids, count {wg.vertex_count}')
    inside = {id(n) for n in nodes}
    at = {id(n): i for i, n in enumerate(nodes)}
    want(id(wg.start) in inside and id(wg.finish) in inside, 'shape', 'start or finish missing')
    for n in nodes:
        for e in n.edges_to:
            want(e.finish is n and id(e.start) in inside and any(x is e or (x.start is e.start and x.finish is n) for x in e.start.edges_from),
                 'shape', f'edge to {n.id}')
            want(at[id(e.start)] < at[id(n)], 'shape', f'{e.start.id} is listed after {n.id}')
            want(float(e.lag) >= 0 or int(e.lag) == -1, 'shape', f'lag {e.lag}')
        for e in n.edges_from:
            want(e.start is n and id(e.finish) in inside, 'shape', f'edge from {n.id}')
        want((not n.edges_to) == (n is wg.start), 'shape', f'{n.work_unit.display_name} without predecessors')
        want((not n.edges_from) == (n is wg.finish), 'shape', f'{n.work_unit.display_name} without successors')
    for n in nodes:
        u = n.work_unit
        if n is wg.start or n is wg.finish:
            want(u.is_service_unit and not u.worker_reqs, 'shape', f'{u.display_name}')
            continue
        want(u.volume >= 0, 'requirements', f'volume of {u.display_name}: {u.volume}')
        kinds = [r.kind for r in u.worker_reqs]
        want(kinds and len(set(kinds)) == len(kinds), 'requirements', f'{u.display_name} needs {kinds}')
        for r in u.worker_reqs:
            want(0 < r.min_count <= r.max_count and int(r.volume) >= 0, 'requirements', f'{u.display_name} needs {r}')


def name_of(n):
    return n.work_unit.model_name['granular_name'].split(' #')[0].split('_0')[0]


def clusters(wg):
    """Their names in order of creation with the works that hand them over."""
    out = {}
    for n in wg.nodes:
        if name_of(n) == 'cluster handing':
            out.setdefault(n.work_unit.group.split(':')[0], []).append(n)
    return out


def judge_small(s, wg):
    judge_shape(wg)
    want(30 <= wg.vertex_count <= 50, 'small', f'{wg.vertex_count} works')
    want(list(clusters(wg)) == [s['prefix']] and sum(map(len, clusters(wg).values())) == 1, 'small', f'{list(clusters(wg))}')
    want({n.work_unit.group.split(':')[0] for n in wg.nodes if not n.work_unit.is_service_unit} == {s['prefix']}, 'small', 'groups')


def judge_graph(s, wg):
    judge_shape(wg)
    n, cl = wg.vertex_count, clusters(wg)
    stages = sum(map(len, cl.values()))
    prefix = s.get('prefix', 'C')
    want(sorted(cl) == sorted(f'{prefix}{i + 1}' for i in range(len(cl))), 'clusters', f'{s}: {sorted(cl)}')
    small = stages == 1 and n <= 50
    if s['counts']:
        want(stages <= s['counts'], 'clusters', f'{s}: {stages} clusters')
        if not s['bottom'] and not s['top']:
            want(stages == s['counts'], 'clusters', f'{s}: {stages} clusters')
    if s['bottom']:
        want(n >= s['bottom'] or stages == s['counts'], 'borders', f'{s}: {n} works')
        last = [w for w in wg.nodes if w.work_unit.group.split(':')[0] == f'{prefix}{len(cl)}']
        want(n - len(last) < s['bottom'] + 2, 'borders', f'{s}: {n} works, {len(last)} of them in the last cluster')
    elif s['top']:
        want(n <= max(s['top'], 50 if stages == 1 else 0), 'borders', f'{s}: {n} works')
        if stages != s['counts']:
            want(n > s['top'] - BIGGEST, 'borders', f'{s}: only {n} works')
    for name, hs in cl.items():
        want(len(hs) <= 2, 'clusters', f'{name} handed over {len(hs)} times')
    if s['what'] == 'custom' and not small:
        if s['addition'] == 0:
            want(all(len(hs) == 1 for hs in cl.values()), 'clusters', f'{s}: additional clusters')
        if s['addition'] == 1.0:
            single = [k for k, hs in cl.items() if len(hs) == 1]
            want(len(single) <= (1 if s['counts'] else 0), 'clusters', f'{s}: no additional clusters in {single}')
    judge_links(s, wg, cl)


def judge_links(s, wg, cl):
    """How clusters wait for each other."""
    prefix = s.get('prefix', 'C')
    number = lambda n: int(n.work_unit.group.split(':')[0][len(prefix):])
    outside = {}
    for n in wg.nodes:
        if n is wg.start or n is wg.finish:
            continue
        ps = [p for p in n.parents if p is not wg.start and number(p) != number(n)]
        if ps:
            want(name_of(n) == 'cluster handing', 'links', f'{n.work_unit.display_name} waits for another cluster')
            outside[n.id] = ps
    for name, hs in cl.items():
        i = int(name[len(prefix):])
        for h in hs:
            ps = outside.get(h.id, [])
            if i == 1:
                want(not ps, 'links', f'{s}: the first cluster waits for {[p.work_unit.display_name for p in ps]}')
                continue
            want(len(ps) == 1, 'links', f'{s}: {name} waits for {len(ps)} clusters')
            p, k = ps[0], number(ps[0])
            if s['mode'] == 'GENERAL':
                want(k < i and name_of(p) == 'minimal road', 'links', f'{s}: {name} waits for {name_of(p)} of {k}')
                if s.get('branching') == 0:
                    want(k == i - 1, 'links', f'{s}: {name} waits for {k}')
            else:
                want(name_of(p) == 'cluster handing', 'links', f'{s}: {name} waits for {name_of(p)}')
                want(k == (1 if s['mode'] == 'PARALLEL' else i - 1), 'links', f'{s}: {name} waits for {k}')


def judge_advanced(s, wg):
    judge_shape(wg)
    want(wg.vertex_count <= max(s['top'], 50), 'borders', f'{s}: {wg.vertex_count} works')
    names = {n.work_unit.model_name['granular_name'] for n in wg.nodes if not n.work_unit.is_service_unit}
    kinds = {r.kind for n in wg.nodes for r in n.work_unit.worker_reqs}
    want(len(names) <= max(s['names'], 25), 'extended', f'{s}: {len(names)} names')
    want(len(kinds) <= max(s['kinds'], 6), 'extended', f'{s}: {len(kinds)} kinds')
    if s['kinds'] > 6:
        want(len(kinds) > min(6, s['kinds'] - 1) or wg.vertex_count < 40, 'extended', f'{s}: {len(kinds)} kinds')


def judge_extended(s, before, after):
    """More names, or more kinds, and nothing else."""
    names = lambda g: [x['unit']['model_name']['granular_name'] for x in g['nodes']]
    kinds = lambda g: [[dict(r[1:])['kind'] for r in x['unit']['workers']] for x in g['nodes']]
    service = [x['unit']['service'] for x in before['nodes']]
    if s['what'] == 'names':
        pairs = [(a, b) for a, b, sv in zip(names(before), names(after), service) if not sv]
        same_service = [(a, b) for a, b, sv in zip(names(before), names(after), service) if sv]
        want(all(a == b for a, b in same_service), 'extended', f'{same_service}')
    else:
        pairs = [(a, b) for x, y in zip(kinds(before), kinds(after)) for a, b in zip(x, y)]
    had, got = {a for a, _ in pairs}, {b for _, b in pairs}
    want(len(got) <= max(s['n'], len(had)), 'extended', f'{s}: {len(got)} after {len(had)}')
    if s['n'] <= len(had):
        want(before == after, 'extended', f'{s}: there are {len(had)} already')
        return
    for b in got:
        olds = {a for a, x in pairs if x == b}
        want(len(olds) == 1 and b.startswith(min(olds)), 'extended', f'{b} was {sorted(olds)}')
    for a in had:
        share = s['n'] // len(had) + 1
        want(len({b for x, b in pairs if x == a}) <= share, 'extended', f'{s}: {a} became too many')
    # with many occurrences of each, all of the asked names appear, up to bad luck
    want(len(got) > 1 or len(pairs) < 12 or s['n'] < 2, 'extended', f'{s}: {len(got)}')
    strip = lambda g: [dict(x, unit={k: v for k, v in x['unit'].items() if k not in ('model_name', 'name', 'workers')}) for x in g['nodes']]
    d = snapshot.diff(strip(before), strip(after), 'graph')
    want(d is None, 'extended', f'{s}: {d}')
    for x, y in zip(before['nodes'], after['nodes']):
        if s['what'] == 'names':
            want(x['unit']['workers'] == y['unit']['workers'], 'extended', f'{s}: requirements changed')
        else:
            want(x['unit']['model_name'] == y['unit']['model_name'], 'extended', f'{s}: names changed')
            rest = lambda rs: [[(k, v) for k, v in r[1:] if k != 'kind'] for r in rs]
            want(rest(x['unit']['workers']) == rest(y['unit']['workers']), 'extended', f'{s}: requirements changed')


def judge_contractor(s, c):
    want(set(c.workers) == set(s['types']), 'contractor', f'{s}: {sorted(c.workers)}')
    want(len({w.id for w in c.workers.values()}) == len(c.workers), 'contractor', 'ids of workers repeat')
    for k, w in c.workers.items():
        want(w.name == k and w.contractor_id == c.id, 'contractor', f'{k}: {w}')
        want(PACK[k] <= w.count <= PACK[k] * s['pack'] + 1e-4, 'contractor',
             f'{s}: {w.count} of {k}, {PACK[k]}..{PACK[k] * s["pack"]} asked for')
        if s.get('sigma') == 0 and s['how'] in ('scatter', 'types'):
            want(w.count > PACK[k] * s['pack'] - 1, 'contractor', f'{s}: {w.count} of {k} without scatter')
    if s['how'] == 'scatter':
        want(c.name == 'own name', 'contractor', f'{c.name}')


def judge_suits(s, wg, c):
    """The contractor made for a project can do each of its works."""
    want(c.id == 'own-id' and c.name == 'own name', 'suits', f'{c.id} {c.name}')
    value = dict(MIN=lambda r: r.min_count, MAX=lambda r: r.max_count, AVG=lambda r: (r.min_count + r.max_count) // 2)[s['method']]
    most = {}
    for n in wg.nodes:
        for r in n.work_unit.worker_reqs:
            most[r.kind] = max(most.get(r.kind, 0), value(r))
            want(r.kind in c.workers and c.workers[r.kind].count >= r.min_count, 'suits',
                 f'{s}: {n.work_unit.display_name} needs {r.min_count} {r.kind}')
    want(set(c.workers) == set(most), 'suits', f'{sorted(c.workers)}')
    for k, w in c.workers.items():
        want(abs(w.count - most[k] * s['scaler']) < 1, 'suits', f'{s}: {w.count} of {k}, {most[k]} needed')
        want(w.contractor_id == c.id and w.name == k, 'suits', f'{w}')


# ------------------------------------------------------------------ sites
def read_landscape(l):
    """What the site consists of, by names."""
    depots = {h.node.name for h in l.holders}
    return dict(platforms=[dict(name=n.name, works=[w.id for w in n.works], cap=dict(n.resource_storage_unit.capacity))
                           for n in l.lg.nodes if n.name not in depots],
                holders=[dict(name=h.node.name, vehicles=[dict(v.resources) for v in h.vehicles], stock=dict(h.node.resource_storage_unit.capacity),
                              vehicle=dict(h.vehicles[0].resources) if h.vehicles else {}, fleet=len(h.vehicles)) for h in l.holders],
                roads=sorted([e.start.name, e.finish.name, e.weight, e.bandwidth] for e in l.lg.edges))


def judge_landscape(wg, l, land):
    names = [x['name'] for x in land['platforms'] + land['holders']]
    want(len(set(names)) == len(names) and len({n.id for n in l.lg.nodes}) == len(names), 'site', f'{names}')
    want(land['platforms'] and land['holders'], 'site', 'no platforms or no depots')
    work = {n.id: n for n in wg.nodes}
    placed = [w for p in land['platforms'] for w in p['works']]
    need = {n.id for n in wg.nodes if not n.work_unit.is_service_unit}
    want(len(set(placed)) == len(placed) and set(placed) == need, 'site',
         f'{len(placed)} works on platforms, {len(need)} in the project')
    want(not any(n.works for n in l.lg.nodes if n.name not in {p['name'] for p in land['platforms']}), 'site', 'works at a depot')
    sizes = [0 for _ in land['platforms']]
    for i, p in enumerate(land['platforms']):
        for w in p['works']:
            n = work[w]
            if n.is_inseparable_son():
                want(n.inseparable_parent.id in p['works'], 'site', f'a chain is on several platforms')
            else:
                sizes[i] += 1
            for r in n.work_unit.material_reqs:
                want(p['cap'].get(r.kind, 0) >= r.count, 'site', f'{w} needs {r}, {p["name"]} takes {p["cap"].get(r.kind)}')
    total = {}
    for n in wg.nodes:
        for r in n.work_unit.material_reqs:
            total[r.kind] = total.get(r.kind, 0) + r.count
    near = {x: set() for x in names}
    for a, b, length, width in land['roads']:
        want(a != b and length > 0 and width > 0, 'site', f'road {a}-{b} {length} {width}')
        near[a].add(b)
        near[b].add(a)
    seen, todo = {names[0]}, [names[0]]
    while todo:
        for y in near[todo.pop()]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    want(seen == set(names), 'site', f'no way to {sorted(set(names) - seen)}')
    for n in l.lg.nodes:
        want({x.name for x in n.neighbours} == near[n.name], 'site', f'neighbours of {n.name}: {[x.name for x in n.neighbours]}')
    for k, count in total.items():
        want(all(h['stock'].get(k, 0) >= count for h in land['holders']), 'site', f'{count} of {k} needed')
        for h in land['holders']:
            want(h['vehicles'] and all(v.get(k, 0) > 0 for v in h['vehicles']), 'site', f'vehicles of {h["name"]} do not carry {k}')


def world_of(wg, c):
    """A project of the library as plain data for the oracles."""
    works = []
    for n in wg.nodes:
        if n is wg.start or n is wg.finish:
            continue
        u = n.work_unit
        works.append(dict(id=n.id, volume=u.volume, service=u.is_service_unit,
                          reqs=[dict(kind=r.kind, volume=int(r.volume), min=r.min_count, max=r.max_count) for r in u.worker_reqs],
                          edges=[[e.start.id, int(e.lag), e.type.value] for e in n.edges_to if e.start is not wg.start]))
    return dict(works=works, macros=[[w['id']] for w in works], productivity=[], spec={},
                contractors=[dict(id=c.id, workers=[(k, w.count, w.cost_one_unit) for k, w in c.workers.items()])])


# ------------------------------------------------------------------ scenario
def built_site(sim):
    """A site made for a project of the client, with works that need little and works that need chains."""
    from sampo.generator.environment.landscape import get_landscape_by_wg
    p = Profile(materials=True, min_macros=1)
    p.max_macros = 6
    p.spec = False
    p.odd_costs = False
    world = gen_world(sim, p)
    for w in world['works']:
        if sim.flag('little', 0.4):
            w['materials'] = [[k, 1 + sim.draw('few', 3)] for k, _ in w['materials']]
    world.pop('land')
    if not any(w['materials'] for w in world['works']):
        return
    seed = sim.draw('site-seed', 10000)
    pr = Problem(world, ops.sim_estimator(world))
    before = snapshot.graph(pr.wg)

    def go():
        return read_landscape(get_landscape_by_wg(pr.wg, _random.Random(seed)))
    ref = isolated(go)
    seams.ENTROPY.reset(f'other machine {sim.draw("entropy", 1000)}')
    try:
        l = get_landscape_by_wg(pr.wg, _random.Random(seed))
    except Exception as e:
        raise Violation('synthetic/site-crash', f'{type(e).__name__}: {e}')
    land = read_landscape(l)
    d = snapshot.diff(before, snapshot.graph(pr.wg), 'graph')
    want(d is None, 'input-changed', f'{d}')
    want(ref[0] == 'ok' and ref[1] == land, 'seed', f'sites of one seed differ: {snapshot.diff(ref[1], land, "site")}')
    judge_landscape(pr.wg, l, land)
    sim.event('site', seed, len(land['platforms']), len(land['holders']), hash_of(land))
    sim.meta['nontrivial'] = True
    if not feasible_exists(world) or not sim.flag('planned', 0.6):
        return
    world['land'] = land
    pr.landscape = l
    cfg = ops.draw_heuristic(sim)
    try:
        schedule = ops.plan(cfg, pr)[0]
    except Exception as e:
        sim.event('  ->', type(e).__name__, str(e)[:120])
        return judge_crash(world, cfg, e, 'synthetic/site-')
    rows, told = sched_rows(schedule), deliveries_of(world, schedule)
    sim.event('  ->', ops.describe(cfg), int(schedule.execution_time), 'deliveries', len(told))
    sim.probe('deliveries', len(told))
    f = check_schedule(world, pr.wg, schedule, 0, PARTS + ('chain',), rows=rows)
    f += check_supply(world, rows, told)
    ops.raise_findings('synthetic/site-', [(sig, f'{ops.describe(cfg)}: {msg}') for sig, msg in f])


def hash_of(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:12]


def interfere(sim, k):
    """What else draws random numbers in the client's process."""
    what = sim.weighted('interfere', 5, 0.4)
    if what == 1:
        _random.seed(sim.draw('global-seed', 100))
        sim.fault('global randomness reseeded')
    elif what == 2:
        from sampo.generator.base import SimpleSynthetic
        SimpleSynthetic(None).small_work_graph()
        sim.fault('another generator without a seed')
    elif what == 3:
        import gc
        gc.collect()
    elif what == 4:
        import numpy
        numpy.random.seed(sim.draw('np-seed', 100))
        sim.fault('global randomness reseeded')


@register('P25')
def p25(sim):
    """Synthetic projects are sound, of the size asked for and a function of their seed."""
    environment(sim)
    if sim.weighted('what', 4, 0.75) == 3:
        return built_site(sim)
    n = 1 + sim.weighted('clients', 3, 0.4)
    plans = []
    for k in range(n):
        steps = []
        for i in range(1 + sim.draw('steps', 4)):
            steps.append(draw_step(sim, any(s['what'] in ('small', 'graph', 'custom', 'advanced') for s in steps)))
        plans.append(dict(seed=sim.draw('seed', 100000), by_object=sim.flag('by-object', 0.3),
                          sampler=sim.draw('sampler', 100000), steps=steps))

    def alone():
        out = []
        for p in plans:
            c = Client(p['seed'], p['by_object'], p['sampler'])
            out.append([c.do(s, False) for s in p['steps']])
        return out
    ref = isolated(lambda: attempt_plain(alone))
    seams.ENTROPY.reset(f'other machine {sim.draw("entropy", 1000)}')
    clients = [Client(p['seed'], p['by_object'], p['sampler']) for p in plans]
    got = [[] for _ in plans]
    made = 0
    while any(len(g) < len(p['steps']) for g, p in zip(got, plans)):
        k = sim.pick('turn', [i for i, (g, p) in enumerate(zip(got, plans)) if len(g) < len(p['steps'])])
        interfere(sim, made)
        s = plans[k]['steps'][len(got[k])]
        sim.event('client', k, s)
        try:
            x = clients[k].do(s, True)
        except Violation:
            raise
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('synthetic/crash', f'{s}: {type(e).__name__}: {str(e)[:200]} at {tb.filename.split("/")[-1]}:{tb.name}')
        got[k].append(x)
        made += 1
        sim.event('  ->', hash_of(x))
        sim.state((s['what'], s.get('mode'), hash_of(x)[:2]))
        if s['what'] in ('small', 'graph', 'custom', 'advanced'):
            sim.probe('projects')
    ids = [set(n.id for n in wg.nodes) for c in clients for _, wg, _ in c.made[-1:]]
    want(ref[0] == 'ok' and ref[1][0] == 'ok', 'crash', f'{ref}'[:300])
    for k, (a, b) in enumerate(zip(ref[1][1], got)):
        d = snapshot.diff(a, b, f'client {k}')
        want(d is None, 'seed', f'seed {plans[k]["seed"]}: alone and among others differ: {d}'[:400])
    for k, c in enumerate(clients):
        for what, wg, digest in c.made:
            d = snapshot.diff(digest, snapshot.graph(wg), what)
            want(d is None, 'changed-later', f'client {k}: {d}')
    sim.meta['nontrivial'] = made > 0


def attempt_plain(fn):
    try:
        return 'ok', fn()
    except Exception as e:
        return 'error', type(e).__name__, str(e)[:200]

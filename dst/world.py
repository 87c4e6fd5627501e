"""Generated planning problems.

A world is first a plain-data description (the oracle reads only that), from which
the library's objects are built as often as a run needs them.
"""
KINDS = ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']


class Profile:
    def __init__(self, **kw):
        self.max_macros = 8
        self.chains = True
        self.chain_reqs = True        # chain members share the worker kinds (library contract)
        self.lags = True
        self.max_contractors = 3
        self.hetero = True            # contractors with different kinds in different orders
        self.optional_cost = True
        self.priorities = True
        self.spec = True
        self.spec_always = False
        self.spec_time = True
        self.spec_independent = False
        self.zero_min = False
        self.service_works = True
        self.infeasible = False
        self.zones = False
        self.materials = False
        self.productivity = True
        self.max_kinds = 4
        self.min_macros = 1
        self.any_priorities = False   # priorities that contradict the edges
        self.tight = True
        self.zero_volume = False      # some chains hold only works without any work to do
        self.odd_costs = False        # prices that are free of charge or not whole numbers
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)


def gen_world(sim, p: Profile, tag=''):
    kinds = KINDS[:sim.int('kinds', 1, p.max_kinds)]
    n_macros = sim.int('macros', p.min_macros, p.max_macros)
    use_lag = p.lags and sim.flag('use_lag', 0.5)
    use_chain = p.chains and sim.flag('use_chain', 0.6)
    use_prio = p.priorities and sim.flag('use_prio', 0.4)
    density = sim.int('density', 0, 3)
    works = []
    macros = []
    for m in range(n_macros):
        length = 1
        if use_chain:
            length += sim.weighted('chain', 3, 0.6)
        service = p.service_works and sim.weighted('service', 2, 0.93) == 1
        n_req = 0 if service else 1 + sim.weighted('nreq', min(3, len(kinds)), 0.4)
        req_kinds = sim.shuffle('reqkinds', kinds)[:n_req]
        prio = 1 + (sim.draw('prio', 3) if use_prio else 0)
        prio_of = {w['id']: w['priority'] for w in works}
        base = []
        for k in req_kinds:
            mn = 1 + sim.draw('min', 3)
            span = sim.draw('span', 6)
            if p.zero_min and sim.weighted('zmin', 2, 0.85):
                span, mn = mn + span, 0
            base.append((k, mn, span))
        members = []
        # no hours of labour asked for, no volume of work, or neither
        nothing = 1 + sim.draw('nothing-kind', 3) if p.zero_volume and sim.flag('nothing', 0.3) else 0
        for c in range(length):
            wid = f'{tag}w{len(works):02d}'
            reqs = [dict(kind=k,
                         volume=0 if nothing in (1, 3) else 1 + sim.draw('vol', 40),
                         min=mn,
                         max=mn + span)
                    for k, mn, span in base]
            edges = []
            if c > 0:
                edges.append([works[-1]['id'], 0, 'IFS'])
            # edges from earlier macros only: the chain quotient stays acyclic
            if m > 0:
                n_par = sim.draw('npar', min(m, density) + 1)
                if c > 0 and n_par > 1:
                    n_par = 1
                pool = [w for mm in macros for w in mm]
                used = {e[0] for e in edges}
                for _ in range(n_par):
                    par = pool[len(pool) - 1 - sim.draw('par', len(pool))]
                    if par in used:
                        continue
                    used.add(par)
                    if use_lag and sim.flag('lag', 0.35):
                        edges.append([par, 1 + sim.draw('lagv', 12), 'FFS'])
                    else:
                        edges.append([par, 0, 'FS'])
            works.append(dict(id=wid, name=f'name{wid}',
                              reqs=reqs, edges=edges, group=f'g{m % 3}', priority=prio,
                              service=service, volume=0.0 if nothing in (2, 3) else float(1 + sim.draw('wvol', 9)),
                              zones=[], materials=[]))
            members.append(wid)
            # priorities agree with the edges: a successor is never more urgent than its predecessor
            if not p.any_priorities:
                prio = max([prio] + [prio_of[e[0]] for e in edges if e[0] in prio_of])
        for w in works:
            if w['id'] in members:
                w['priority'] = prio
        macros.append(members)

    contractors = []
    n_contr = sim.int('contractors', 1, p.max_contractors)
    need = {}
    for w in works:
        for r in w['reqs']:
            need[r['kind']] = max(need.get(r['kind'], 0), max(r['min'], 1))
    for c in range(n_contr):
        ks = list(kinds)
        if p.hetero and c > 0:
            ks = sim.shuffle('ckinds', ks)
            if len(ks) > 1 and sim.flag('cdrop', 0.4):
                ks = ks[:len(ks) - 1]
        workers = []
        for k in ks:
            extra = sim.draw('supply', 4) if p.tight else 3 + sim.draw('supply', 8)
            cnt = need.get(k, 1) + extra
            if p.infeasible and sim.flag('infeasible', 0.15):
                cnt = max(0, need.get(k, 1) - 1)
            elif c > 0 and p.hetero and sim.flag('weak', 0.2):
                cnt = max(1, cnt - 2)
            cost = 10 + 5 * sim.draw('cost', 4) if p.optional_cost and sim.flag('hascost', 0.3) else None
            if cost is not None and p.odd_costs:
                cost = [0, 12.5, 0.25, cost][sim.draw('odd-cost', 4)]
            workers.append([k, cnt, cost])
        contractors.append(dict(id=f'{tag}c{c}', workers=workers))

    productivity = []
    if p.productivity and sim.flag('use_prod', 0.4):
        for k in kinds:
            if sim.flag('prod', 0.5):
                who = sim.draw('prodwho', n_contr + 1)
                productivity.append([k, None if who == 0 else contractors[who - 1]['id'],
                                     [1.0, 0.5, 1.5, 2.0, 0.7][sim.draw('prodv', 5)]])

    world = dict(works=works, macros=macros, contractors=contractors, kinds=kinds,
                 productivity=productivity, spec={}, start=0)
    if p.spec and (p.spec_always or sim.flag('use_spec', 0.5)):
        gen_spec(sim, world, p)
    if p.zones:
        gen_zones(sim, world, tag)
    if p.materials:
        gen_land(sim, world)
    return world


def rename(world, name_of):
    """Gives the works other ids: name_of(number of the work)."""
    new = {w['id']: name_of(i) for i, w in enumerate(world['works'])}
    for w in world['works']:
        w['id'] = new[w['id']]
        for e in w['edges']:
            e[0] = new[e[0]]
    world['macros'] = [[new[x] for x in m] for m in world['macros']]
    world['spec'] = {new[k]: v for k, v in world['spec'].items()}
    if world.get('land'):
        for p in world['land']['platforms']:
            p['works'] = [new[x] for x in p['works']]


def draw_ids(sim, world):
    """Ids that begin with the ids of other works."""
    k = sim.weighted('ids', 3, 0.6)
    if k:
        rename(world, (lambda i: f'w{i + 1}') if k == 1 else (lambda i: 'w' * (i + 1)))


def gen_land(sim, world):
    """Platforms that hold the works, depots with fleets that supply them and roads between them."""
    mats = ['brick', 'pipe', 'sand'][:1 + sim.draw('mats', 3)]
    for w in world['works']:
        for r in w['reqs']:
            r['volume'] = (r['volume'] + 3) // 4       # looking for deliveries takes time with the length of a plan
        if not w['service']:
            w['materials'] = [[m, 1 + sim.draw('mat-count', 20)] for m in mats if sim.flag('mat', 0.5)]
    most = {m: max([n for w in world['works'] for k, n in w['materials'] if k == m], default=1) for m in mats}
    total = {m: sum(n for w in world['works'] for k, n in w['materials'] if k == m) for m in mats}
    land = dict(platforms=[], holders=[], roads=[])
    for i in range(1 + sim.weighted('platforms', 3, 0.6)):
        land['platforms'].append(dict(name=f'p{i}', works=[],
                                      cap={m: most[m] + [0, 0, 3, 30][sim.draw('platform-cap', 4)] for m in mats}))
    for macro in world['macros']:
        sim.pick('platform', land['platforms'])['works'].extend(macro)
    cap = {m: max(p['cap'][m] for p in land['platforms']) for m in mats}
    for i in range(1 + sim.draw('holders', 3)):
        carry = {m: 3 + sim.draw('vehicle-cap', 20) for m in mats}
        # any vehicle-load the platforms can ask for can be carried by the fleet
        need = max(-(-cap[m] // carry[m]) for m in mats)
        land['holders'].append(dict(name=f'h{i}', vehicle=carry, fleet=need + sim.weighted('fleet', 5, 0.5),
                                    # a delivery fills the platform up
                                    stock={m: total[m] + len(world['works']) * cap[m] for m in mats}))
    if len(land['holders']) > 1 and sim.flag('scarce', 0.3):
        # the last depot alone has enough of everything
        for h in land['holders'][:-1]:
            for m in mats:
                h['stock'][m] = sim.draw('scarce-stock', 40)
    fleet = max(h['fleet'] for h in land['holders'])
    names = [x['name'] for x in land['platforms'] + land['holders']]

    def road(a, b):
        land['roads'].append([a, b, [5, 1, 12, 20][sim.draw('road-length', 4)],
                              fleet + [0, 0, 2, 100][sim.draw('road-width', 4)]])
    for i in range(1, len(names)):
        road(names[i], names[sim.draw('road-to', i)])
    if len(names) > 2 and sim.flag('loops', 0.2):
        for _ in range(1 + sim.draw('loops-n', 2)):
            a, b = sorted(sim.shuffle('loop', names)[:2])
            if not any({a, b} == {x, y} for x, y, _, _ in land['roads']):
                road(a, b)
    if sim.flag('parallel', 0.25):
        # a second road between two neighbours
        for _ in range(1 + sim.draw('parallel-n', 2)):
            a, b = sim.pick('parallel-to', land['roads'])[:2]
            road(*((a, b) if sim.flag('parallel-turn', 0.5) else (b, a)))
            if sim.flag('parallel-narrow', 0.4):
                land['roads'][-1][3] = 1 + sim.draw('narrow', 2)
    # the ways to build a landscape: roads given to the nodes or added to them, ids given to them or made by them
    land['own-ids'] = sim.flag('own-ids', 0.3)
    land['roads-at-once'] = sim.flag('roads-at-once', 0.3)
    world['land'] = land


def gen_zones(sim, world, tag):
    # busy zones: the works wait for the statuses of several zones rather than for people
    busy = sim.flag('zones-busy', 0.35)
    names = ['north', 'south', 'roof'][:2 + sim.draw('zones', 2) if busy else 1 + sim.draw('zones', 3)]
    zones = dict(start={k: sim.draw('zone-start', 3) for k in names}, end={},
                 costs=[[0 if i == j else [0, 1, 3, 10][sim.draw('zone-cost', 4)] for j in range(3)] for i in range(3)])
    if sim.flag('zone-end-on', 0.3):
        zones['end'] = {k: 1 + sim.draw('zone-end', 2) for k in names if sim.flag('zone-end-here', 0.7)}
    world['zones'] = zones
    by_id = {w['id']: w for w in world['works']}
    for macro in world['macros']:
        # the works of a chain share the requirements, as they share the team
        reqs = [[k, 1 + sim.draw('zone-status', 2) if busy else sim.draw('zone-req', 3)]
                for k in names if sim.flag('zone-here', 0.8 if busy else 0.55)]
        for wid in macro:
            by_id[wid]['zones'] = [list(r) for r in reqs]
    if busy:
        for c in world['contractors']:
            for w in c['workers']:
                w[1] += 10


def feasible_contractors(world, macro, team=None):
    """Ids of contractors able to execute every work of the chain."""
    by_id = {w['id']: w for w in world['works']}
    out = []
    for c in world['contractors']:
        have = {k: n for k, n, _ in c['workers']}
        ok = True
        for wid in macro:
            for r in by_id[wid]['reqs']:
                if have.get(r['kind'], 0) < max(r['min'], (team or {}).get(r['kind'], 0)):
                    ok = False
                if r['kind'] not in have:
                    ok = False
        if ok:
            out.append(c['id'])
    return out


def gen_spec(sim, world, p):
    by_id = {w['id']: w for w in world['works']}
    for macro in world['macros']:
        if not sim.flag('spec_here', 0.6 if p.spec_always else 0.35):
            continue
        head = by_id[macro[0]]
        entry = {}
        if sim.flag('spec_contr', 0.5):
            ok = feasible_contractors(world, macro)
            if ok:
                entry['contractors'] = sorted(sim.shuffle('sc', ok)[:1 + sim.draw('scn', len(ok))])
        if head['reqs'] and sim.flag('spec_team', 0.5):
            allowed = entry.get('contractors') or [c['id'] for c in world['contractors']]
            cands = [c for c in feasible_contractors(world, macro) if c in allowed]
            if cands:
                cid = sim.pick('stc', cands)
                have = {k: n for k, n, _ in next(c for c in world['contractors'] if c['id'] == cid)['workers']}
                team = {}
                for r in head['reqs']:
                    if team and sim.flag('spec_partial', 0.3):
                        continue
                    hi = min(r['max'], have[r['kind']])
                    lo = max(r['min'], 1)
                    team[r['kind']] = lo + sim.draw('stn', max(1, hi - lo + 1))
                entry['team'] = team
        idle = all(by_id[wid]['volume'] == 0 for wid in macro)
        if p.spec_time and head['reqs'] and sim.flag('spec_time', 0.7 if idle else 0.25):
            entry['time'] = 1 + sim.draw('stv', 30)
        if p.spec_independent and sim.flag('spec_ind', 0.25):
            entry['independent'] = True
        if entry:
            for wid in macro:
                world['spec'][wid] = dict(entry)


# ------------------------------------------------------------------ library objects
def make_graph(world):
    from sampo.schemas.graph import GraphNode, WorkGraph, EdgeType
    from sampo.schemas.requirements import ConstructionObjectReq, EquipmentReq, MaterialReq, WorkerReq, ZoneReq
    from sampo.schemas.time import Time
    from sampo.schemas.works import WorkUnit
    types = {'SS': EdgeType.StartStart, 'FF': EdgeType.FinishFinish, 'FS': EdgeType.FinishStart, 'FFS': EdgeType.LagFinishStart, 'IFS': EdgeType.InseparableFinishStart}
    nodes = {}
    import random
    for w in world['works']:
        wu = WorkUnit(w['id'], dict(w['model']) if w.get('model') else w['name'],
                      worker_reqs=[WorkerReq(r['kind'], Time(r['volume']), r['min'], r['max']) for r in w['reqs']],
                      zone_reqs=[ZoneReq(k, s) for k, s in w['zones']],
                      material_reqs=[MaterialReq(k, n) for k, n in w['materials']],
                      equipment_reqs=[EquipmentReq(k, n) for k, n in w.get('equipments', [])],
                      object_reqs=[ConstructionObjectReq(k, n) for k, n in w.get('objects', [])],
                      description=w.get('description', ''),
                      group=w['group'], priority=w['priority'], is_service_unit=w['service'],
                      volume=w['volume'], display_name=w['name'])
        nodes[w['id']] = GraphNode(wu, [(nodes[p], lag, types[t]) for p, lag, t in w['edges']])
    return WorkGraph.from_nodes(list(nodes.values()), rand=random.Random(world.get('graph_seed', 7)))


def make_contractors(world):
    from sampo.schemas.contractor import Contractor
    from sampo.schemas.resources import Worker
    out = []
    for c in world['contractors']:
        out.append(Contractor(id=c['id'], name='name_' + c['id'],
                              workers={k: Worker(id=f'{c["id"]}-{k}', name=k, count=n, contractor_id=c['id'],
                                                 cost_one_unit=cost)
                                       for k, n, cost in c['workers']},
                              equipments={}))
    return out


def make_landscape(world, wg=None):
    import numpy as np
    from sampo.schemas.landscape import LandscapeConfiguration
    from sampo.schemas.zones import ZoneConfiguration
    kw = {}
    if world.get('zones'):
        z = world['zones']
        kw['zone_config'] = ZoneConfiguration(dict(z['start']), dict(z['end']), np.array(z['costs']))
    if world.get('land'):
        from sampo.schemas.landscape import ResourceHolder, Vehicle
        from sampo.schemas.landscape_graph import LandGraph, LandGraphNode, ResourceStorageUnit
        from sampo.schemas.resources import Material
        nodes = {n.id: n for n in wg.nodes}
        sites, holders = {}, []
        roads = list(world['land']['roads'])

        def site(name, capacity, **kw):
            if not world['land'].get('own-ids'):
                kw['id'] = name
            if world['land'].get('roads-at-once'):
                ready = [r for r in roads if name in r[:2] and (r[0] in sites or r[1] in sites)]
                kw['neighbour_nodes'] = [(sites[a if b == name else b], length, width) for a, b, length, width in ready]
                roads[:] = [r for r in roads if r not in ready]
            sites[name] = LandGraphNode(name=name, resource_storage_unit=ResourceStorageUnit(dict(capacity)), **kw)
            return sites[name]
        for p in world['land']['platforms']:
            site(p['name'], p['cap'], works=[nodes[w] for w in p['works']])
        for h in world['land']['holders']:
            n = site(h['name'], h['stock'])
            holders.append(ResourceHolder('id-' + h['name'], h['name'],
                                          [Vehicle(f'{h["name"]}-v{i}', f'v{i}',
                                                   [Material(m, m, c) for m, c in sorted(h['vehicle'].items())])
                                           for i in range(h['fleet'])], n))
        for a, b, length, width in roads:
            sites[a].add_neighbours([(sites[b], length, width)])
        kw.update(holders=holders, lg=LandGraph(nodes=list(sites.values())))
    return LandscapeConfiguration(**kw)


def make_spec(world):
    from sampo.schemas.schedule_spec import ScheduleSpec
    from sampo.schemas.time import Time
    spec = ScheduleSpec()
    for wid, e in world['spec'].items():
        if 'contractors' in e:
            spec.assign_contractors(wid, set(e['contractors']))
        if 'team' in e:
            spec.assign_workers_dict(wid, dict(e['team']))
        if 'time' in e:
            spec.set_exec_time(wid, Time(e['time']))
        if e.get('independent'):
            spec[wid].is_independent = True
    return spec


def configure_estimator(est, world):
    from sampo.schemas.interval import IntervalGaussian
    for kind, contractor, mean in world['productivity']:
        est.set_worker_productivity(IntervalGaussian(mean, 0.1, mean, mean), kind, contractor)
    return est


def make_estimator(world):
    from sampo.schemas.time_estimator import DefaultWorkEstimator
    import random
    return configure_estimator(DefaultWorkEstimator(random.Random(11)), world)


class Problem:
    """One set of library objects for a world."""

    def __init__(self, world, estimator=None):
        self.world = world
        self.wg = make_graph(world)
        self.contractors = make_contractors(world)
        self.spec = make_spec(world)
        self.landscape = make_landscape(world, self.wg) if world.get('zones') or world.get('land') else None
        self.estimator = estimator if estimator is not None else make_estimator(world)

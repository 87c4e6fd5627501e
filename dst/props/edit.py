"""P20: a history of edits of work graphs, step by step against plain descriptions of the graphs."""
import gc

from dst import ops, snapshot
from dst.choice import Violation
from dst.props import register
from dst.world import Problem, Profile, gen_world, make_graph

DEP = ('FS', 'IFS', 'FFS')


class Model:
    """What a graph should be: works by tag (their unique name), their contents and the edges between the tags."""

    def __init__(self, works, edges, start, finish):
        self.works, self.edges, self.start, self.finish = works, edges, start, finish

    def copy(self):
        return Model({t: dict(w) for t, w in self.works.items()}, set(self.edges), self.start, self.finish)

    def chain_of(self, tag):
        nxt = {p: c for p, c, _, t in self.edges if t == 'IFS'}
        prv = {c: p for p, c, _, t in self.edges if t == 'IFS'}
        while tag in prv:
            tag = prv[tag]
        out = [tag]
        while out[-1] in nxt:
            out.append(nxt[out[-1]])
        return out

    def heads(self):
        """Works by chains."""
        seen, out = set(), []
        for t in sorted(self.works):
            if t not in seen:
                c = self.chain_of(t)
                seen.update(c)
                out.append(c)
        return out

    def order(self, edges=None):
        """Pairs (earlier, later) of works that the edges order, directly or not."""
        nxt = {}
        for p, c, _, t in (self.edges if edges is None else edges):
            if t in DEP:
                nxt.setdefault(p, set()).add(c)
        out = set()
        for t in self.works:
            todo, seen = list(nxt.get(t, ())), set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo.extend(nxt.get(x, ()))
            out |= {(t, x) for x in seen}
        return out

    def after(self, tags):
        """Everything that comes after any of the works, over any kind of edge, chains taken as one work."""
        nxt = {}
        for p, c, _, _ in self.edges:
            nxt.setdefault(p, set()).add(c)
        todo, seen = [y for t in tags for y in self.chain_of(t)], set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                for y in nxt.get(x, ()):
                    todo.extend(self.chain_of(y))
        return seen


def tag_of(wu):
    return wu.model_name['granular_name']


def content(wu):
    d = snapshot.work_unit(wu)
    d.pop('id')
    return d


def read(wg, ids=True):
    """What the graph says, after everything it says twice was found to say the same."""
    def bad(what, msg):
        raise Violation(f'edit/{what}', msg)

    nodes = wg.nodes
    tags = [tag_of(n.work_unit) for n in nodes]
    if len(set(tags)) != len(tags):
        bad('twice', f'a work is in the graph twice: {sorted(t for t in tags if tags.count(t) > 1)[:4]}')
    by_id = {}
    for n in nodes:
        if not isinstance(n.id, str):
            bad('id-type', f'id {n.id!r} of {tag_of(n.work_unit)}')
        if n.id in by_id:
            bad('same-id', f'{tag_of(n.work_unit)} and {tag_of(by_id[n.id].work_unit)} have the id {n.id}')
        by_id[n.id] = n
    if nodes[0] is not wg.start:
        bad('start', f'the first node is {nodes[0].id}, not the start')
    if nodes[-1] is not wg.finish:
        bad('finish', f'the last node is {tags[-1]}, not the finish {tag_of(wg.finish.work_unit)}')
    if wg.vertex_count != len(nodes) or set(wg.dict_nodes) != set(by_id):
        bad('index', f'{wg.vertex_count} nodes counted, {len(wg.dict_nodes)} indexed, {len(nodes)} there')
    pos = {n.id: i for i, n in enumerate(nodes)}
    edges, back = [], []
    for n in nodes:
        if wg[n.id] is not n:
            bad('index', f'{n.id} found under another node')
        for e in n.edges_to:
            if e.finish is not n or e.start.id not in by_id or by_id[e.start.id] is not e.start:
                bad('foreign-edge', f'edge to {tag_of(n.work_unit)} comes from a node outside the graph ({e.start.id})')
            if pos[e.start.id] >= pos[n.id]:
                bad('topological', f'{e.start.id} is listed after its successor {n.id}')
            edges.append((tag_of(e.start.work_unit), tag_of(n.work_unit), e.lag, e.type.value))
        for e in n.edges_from:
            if e.start is not n or e.finish.id not in by_id or by_id[e.finish.id] is not e.finish:
                bad('foreign-edge', f'edge from {tag_of(n.work_unit)} leads to a node outside the graph ({e.finish.id})')
            back.append((tag_of(n.work_unit), tag_of(e.finish.work_unit), e.lag, e.type.value))
        for got, want, what in (([p.id for p in n.parents], [e.start.id for e in n.edges_to if e.type.value in DEP], 'parents'),
                                ([p.id for p in n.children], [e.finish.id for e in n.edges_from if e.type.value in DEP], 'children'),
                                (n.inseparable_parent and n.inseparable_parent.id,
                                 next((e.start.id for e in n.edges_to if e.type.value == 'IFS'), None), 'chain parent'),
                                (n.inseparable_son and n.inseparable_son.id,
                                 next((e.finish.id for e in n.edges_from if e.type.value == 'IFS'), None), 'chain son'),
                                ({p.id for p in n.parents_set}, {e.start.id for e in n.edges_to if e.type.value in DEP}, 'set of parents'),
                                ({p.id for p in n.children_set}, {e.finish.id for e in n.edges_from if e.type.value in DEP}, 'set of children')):
            if (sorted(got) if isinstance(got, list) else got) != (sorted(want) if isinstance(want, list) else want):
                bad('stale', f'{what} of {n.id}: {got}, edges say {want}')
    if sorted(map(str, edges)) != sorted(map(str, back)):
        bad('one-sided-edge', f'{sorted(set(map(str, edges)) ^ set(map(str, back)))[:4]}')
    adj = {(i, j) for (i, j) in wg.adj_matrix.keys()} if hasattr(wg.adj_matrix, 'keys') else None
    if adj is not None:
        t = {x: i for i, x in enumerate(tags)}
        want = {(t[p], t[c]) for p, c, _, k in edges if k in DEP}
        if not adj <= want:
            bad('adjacency', f'{sorted(adj - want)[:4]}')
    works = {tag_of(n.work_unit): dict(content=content(n.work_unit), id=n.id) for n in nodes}
    return Model(works, set(edges), tag_of(wg.start.work_unit), tag_of(wg.finish.work_unit))


def compare(where, want, wg):
    got = read(wg)
    if set(got.works) != set(want.works):
        raise Violation('edit/works', f'{where}: missing {sorted(set(want.works) - set(got.works))}, '
                                      f'unexpected {sorted(set(got.works) - set(want.works))}')
    for t, w in want.works.items():
        g = got.works[t]
        if g['content'] != w['content']:
            diff = {k: (w['content'][k], g['content'][k]) for k in w['content'] if w['content'][k] != g['content'][k]}
            raise Violation('edit/content', f'{where}: {t}: {diff}')
        if w['id'] is not None and g['id'] != w['id']:
            raise Violation('edit/id', f'{where}: {t} has the id {g["id"]}, expected {w["id"]}')
    if (got.start, got.finish) != (want.start, want.finish):
        raise Violation('edit/ends', f'{where}: {got.start}..{got.finish}')
    if got.edges != want.edges:
        raise Violation('edit/edges', f'{where}: lost {sorted(map(str, want.edges - got.edges))[:6]}, '
                                      f'gained {sorted(map(str, got.edges - want.edges))[:6]}')
    for t, g in got.works.items():
        want.works[t]['id'] = g['id']
    return got


def typed(sim, world):
    """Start-start and finish-finish edges, in graphs that are edited before they are restructured."""
    macro_of = {w: i for i, m in enumerate(world['macros']) for w in m}
    for w in world['works']:
        earlier = [p['id'] for p in world['works'] if macro_of[p['id']] < macro_of[w['id']]
                   and p['id'] not in {e[0] for e in w['edges']}]
        if earlier and sim.flag('typed', 0.3):
            w['edges'].append([sim.pick('typed-par', earlier), sim.draw('typed-lag', 3), ['SS', 'FF'][sim.draw('typed-kind', 2)]])


def decorate(sim, world, k):
    for w in world['works']:
        w['name'] = f'{k}.{w["name"]}'
        if sim.flag('described', 0.4):
            w['description'] = f'about {w["name"]}'
        if sim.flag('named', 0.3):
            w['model'] = dict(granular_name=w['name'], measurement=['m3', 't'][sim.draw('unit', 2)])
        if sim.flag('supplied', 0.2):
            w['zones'] = [['zone', sim.draw('zs', 3)]]
            w['materials'] = [['sand', 1 + sim.draw('mat', 5)]]
            w['equipments'] = [['crane', 1]]
            w['objects'] = [['road', 1]]


class Session:
    def __init__(self, sim):
        self.sim = sim
        self.made = 0
        self.live = []      # [graph, model, world of plain works by tag]
        self.world_kinds = None

    def new_graph(self, big=True):
        sim = self.sim
        self.made += 1
        k = f'g{self.made}'
        w = gen_world(sim, Profile(max_macros=6 if big else 3, spec=False, productivity=False, max_contractors=1, optional_cost=False), tag=k)
        decorate(sim, w, k)
        if sim.flag('typed-edges', 0.3):
            typed(sim, w)
        w['graph_seed'] = 1000 + self.made      # no two graphs have a work of the same id
        wg = make_graph(w)
        # the service works at the ends carry a unique name like all the others
        for n, name in ((wg.start, 'start'), (wg.finish, 'finish')):
            n.work_unit.model_name = dict(n.work_unit.model_name, granular_name=f'{k}.{name}')
            n.work_unit.display_name = f'{k}.{name}'
        m = read(wg)
        m.by_tag = {x['name']: x for x in w['works']}
        want = {(a, b, float(lag), t) for x in w['works'] for a, b, lag, t in
                [(next(y['name'] for y in w['works'] if y['id'] == p), x['name'], lag, t) for p, lag, t in x['edges']]}
        got = {(a, b, float(lag), t) for a, b, lag, t in m.edges if a != m.start and b != m.finish}
        if want != got:
            raise Violation('edit/edges', f'built graph: lost {sorted(map(str, want - got))[:4]}, gained {sorted(map(str, got - want))[:4]}')
        return wg, m

    def works(self, m):
        return [t for t in sorted(m.works) if t not in (m.start, m.finish)]

    def node(self, wg, m, tag):
        return wg[m.works[tag]['id']]

    def check_all(self, where):
        for i, (g, m) in enumerate(self.live):
            compare(f'{where}: graph {i}', m, g)

    # ------------------------------------------------------------------ edits that make a new graph
    def delete(self, wg, m):
        from sampo.structurator.delete_graph_node import delete_graph_node
        sim = self.sim
        ts = self.works(m)
        if len(m.heads()) < 4:
            return None
        victim = sim.pick('victim', ts)
        gone = set(m.chain_of(victim))
        change = sim.flag('change-id')
        sim.event('delete', victim, 'chain', sorted(gone), 'change_id', change)
        out = delete_graph_node(wg, m.works[victim]['id'], change)
        got = read(out)
        want = m.copy()
        for t in gone:
            del want.works[t]
        kept = {e for e in m.edges if e[0] not in gone and e[1] not in gone}
        closure = {(a, b) for a, b in m.order() if a not in gone and b not in gone}
        for a, b, lag, t in got.edges - kept:
            if (a, b) not in closure:
                raise Violation('edit/delete-order', f'after deleting {sorted(gone)}: new edge {a} -> {b}')
            if t != 'FS' or lag != 0:
                raise Violation('edit/delete-edge', f'after deleting {sorted(gone)}: new edge {(a, b, lag, t)}')
            if not any((a, x) in m.order() for x in gone) or not any((x, b) in m.order() for x in gone):
                raise Violation('edit/delete-edge', f'after deleting {sorted(gone)}: new edge {(a, b, lag, t)}')
        want.edges = kept | (got.edges - kept)
        if set(got.works) == set(want.works) and got.order() != closure:
            raise Violation('edit/delete-order', f'after deleting {sorted(gone)}: works no longer ordered '
                                                 f'{sorted(closure - got.order())[:4]}')
        if change:
            for w in want.works.values():
                w['id'] = None
        return out, want

    def insert(self, wg, m):
        from sampo.schemas.graph import EdgeType
        from sampo.schemas.requirements import WorkerReq
        from sampo.schemas.time import Time
        from sampo.schemas.works import WorkUnit
        from sampo.structurator.insert_wu import insert_work_unit
        sim = self.sim
        self.made += 1
        name = f'n{self.made}.work'
        ts = sorted(m.works)
        parents = sorted(set(sim.pick('ins-par', [t for t in ts if t != m.finish]) for _ in range(1 + sim.draw('npar', 2))))
        # a child must not come before a parent; a member of a chain is not torn from it
        after = {p: m.after([p]) for p in ts}
        ok = [t for t in ts if t != m.start and not any(p in after[t] for p in parents)]
        if not ok:
            return None
        children = sorted(set(sim.pick('ins-ch', ok) for _ in range(1 + sim.draw('nch', 2))))
        plain_p, plain_c = sim.flag('plain-parents'), sim.flag('plain-children')
        types = {'FS': EdgeType.FinishStart, 'FFS': EdgeType.LagFinishStart}

        def side(tags, plain):
            if plain:
                return [self.node(wg, m, t) for t in tags], [(t, 0, 'FS') for t in tags]
            rows = [(t, 3 * sim.draw('ins-lag', 3), sim.pick('ins-type', ['FS', 'FFS'])) for t in tags]
            return [(self.node(wg, m, t), lag, types[k]) for t, lag, k in rows], rows

        pe, pm = side(parents, plain_p)
        ce, cm = side(children, plain_c)
        change = sim.flag('change-id')
        wu = WorkUnit(f'n{self.made}', name, worker_reqs=[WorkerReq('driver', Time(5), 1, 2)], volume=3.0, priority=1 + sim.draw('ins-prio', 3),
                      description='inserted', group='g')
        sim.event('insert', name, 'after', pm, 'before', cm, 'change_id', change)
        out = insert_work_unit(wg, wu, pe, ce, change)
        want = m.copy()
        if change:
            for w in want.works.values():
                w['id'] = None
        want.works[name] = dict(content=content(wu), id=wu.id)
        want.edges |= {(p, name, lag, t) for p, lag, t in pm} | {(name, c, lag, t) for c, lag, t in cm}
        return out, want

    def graft(self, wg, m):
        from sampo.structurator.graph_insertion import graph_in_graph_insertion
        sim = self.sim
        slave, sm = self.new_graph(big=False)
        ts = sorted(m.works)
        a = sim.pick('master-start', [t for t in ts if t != m.finish])
        ok = [t for t in ts if t != m.start and a not in m.after([t])]
        if not ok:
            return None
        b = sim.pick('master-finish', ok)
        change = sim.flag('change-id')
        sim.event('graft', len(sm.works), 'works between', a, b, 'change_id', change)
        out = graph_in_graph_insertion(wg, self.node(wg, m, a), self.node(wg, m, b), slave, change)
        compare('grafted graph', sm, slave)
        want = m.copy()
        for t, w in sm.works.items():
            if t not in (sm.start, sm.finish):
                want.works[t] = dict(w)
        for p, c, lag, t in sm.edges:
            want.edges.add((a if p == sm.start else p, b if c == sm.finish else c, lag, t))
        if change:
            for w in want.works.values():
                w['id'] = None
        if sim.flag('keep-slave', 0.4):
            self.live.append([slave, sm])
        else:
            del slave
            gc.collect()
            sim.fault('graph dropped and collected')
        return out, want

    def renumber(self, wg, m):
        from sampo.structurator import work_graph_ids_simplification
        sim = self.sim
        offset = sim.draw('offset', 50)
        change = not sim.flag('keep-ids', 0.3)
        sim.event('renumber from', offset, 'change_id', change)
        out = work_graph_ids_simplification(wg, offset, change) if not change or sim.flag('explicit', 0.3) \
            else work_graph_ids_simplification(wg, offset)
        want = m.copy()
        if change:
            ids = sorted(int(n.id) if n.id.isdigit() else -1 for n in out.nodes)
            if ids != list(range(offset, offset + len(want.works))):
                raise Violation('edit/numbers', f'offset {offset}: ids {ids[:6]}...')
            for w in want.works.values():
                w['id'] = None
        return out, want

    def copy(self, wg, m):
        from sampo.schemas.graph import WorkGraph
        from sampo.structurator.prepare_wg_copy import new_start_finish, prepare_work_graph_copy
        sim = self.sim
        change = sim.flag('change-id')
        sim.event('copy', 'change_id', change)
        nodes, old2new = prepare_work_graph_copy(wg, change_id=change)
        if set(old2new) != {w['id'] for w in m.works.values()} or set(old2new.values()) != set(nodes):
            raise Violation('edit/mapping', f'{len(old2new)} ids mapped to {len(set(old2new.values()))} of {len(nodes)} nodes')
        for t, w in m.works.items():
            if tag_of(nodes[old2new[w['id']]].work_unit) != t:
                raise Violation('edit/mapping', f'{t} is mapped to {tag_of(nodes[old2new[w["id"]]].work_unit)}')
        out = WorkGraph(*new_start_finish(wg, nodes, old2new))
        want = m.copy()
        if change:
            for w in want.works.values():
                w['id'] = None
        return out, want

    # ------------------------------------------------------------------ others
    def obstruct(self, i):
        from sampo.scheduler.utils.obstruction import OneInsertObstruction
        import random
        sim = self.sim
        wg, m = self.live[i]
        ins, im = self.new_graph(big=False)
        seed = sim.draw('obst-seed', 10 ** 6)
        p = [1.0, 1.0, 0.0][sim.draw('probability', 3)]
        static = sim.flag('static')
        sim.event('obstruction', len(im.works), 'works, probability', p, 'seed', seed, 'static', static)
        ob = OneInsertObstruction.from_static_graph(p, random.Random(seed), ins) if static else \
            OneInsertObstruction(p, random.Random(seed), lambda r: ins)
        ob.generate(wg)
        if static or p == 0:
            compare('obstruction graph', im, ins)
        if not static:
            del ins, ob
            gc.collect()
        if p == 0:
            return
        got = read(wg)
        want = m.copy()
        for t, w in im.works.items():
            want.works[t] = dict(w)
        want.edges |= im.edges
        new = {e for e in got.edges if e not in want.edges}
        into = [e for e in new if e[1] == im.start]
        out = [e for e in new if e[0] == im.finish]
        if len(into) != 1 or len(out) != 1 or len(new) != 2:
            raise Violation('edit/obstruction', f'connected by {sorted(map(str, new))[:5]} only')
        if not any(p == into[0][0] and c == out[0][1] for p, c, _, t in m.edges if t in DEP):
            raise Violation('edit/obstruction', f'put between {into[0][0]} and {out[0][1]}, which are no neighbours')
        want.edges |= new
        self.live[i][1] = want

    def table(self, wg, m):
        """The table of the graph says what the graph says."""
        sim = self.sim
        reqs = sim.flag('with-reqs')
        sim.event('table', reqs)
        df = wg.to_frame(save_req=reqs)
        ids = {w['id']: t for t, w in m.works.items()}
        seen = set()
        for _, row in df.iterrows():
            t = ids.get(row['activity_id'])
            if t is None or t in seen or t in (m.start, m.finish):
                raise Violation('edit/table-rows', f'row {row["activity_id"]}')
            seen.add(t)
            c = m.works[t]['content']
            want = dict(activity_name=c['name'], granular_name=c['model_name']['granular_name'], volume=c['volume'],
                        measurement=c['model_name']['measurement'], priority=c['priority'])
            got = {k: row[k] for k in want}
            if got != want:
                raise Violation('edit/table-content', f'{t}: {got}, the graph says {want}')
            par = sorted((p, str(lag), k) for p, x, lag, k in m.edges if x == t and p != m.start)
            cells = [str(row[k]).split(',') if row[k] else [] for k in ('predecessor_ids', 'lags', 'connection_types')]
            if len({len(x) for x in cells}) != 1 or sorted((ids.get(p, p), lag, k) for p, lag, k in zip(*cells)) != par:
                raise Violation('edit/table-edges', f'{t}: {cells}, the graph says {par}')
            if reqs:
                want = [{dict(r[1:])['kind']: dict(r[1:])[f] for r in c['workers']} for f in ('min_count', 'max_count', 'volume')]
                got = [{k: str(v) for k, v in row[f].items()} for f in ('min_req', 'max_req', 'req_volume')]
                if got[:2] != want[:2] or {k: float(v) for k, v in got[2].items()} != {k: float(v) for k, v in want[2].items()}:
                    raise Violation('edit/table-reqs', f'{t}: {got}, the graph says {want}')
        if seen != set(self.works(m)):
            raise Violation('edit/table-rows', f'missing {sorted(set(self.works(m)) - seen)[:4]}')

    def mistake(self, wg, m):
        """Requests that cannot be fulfilled leave everything as it was."""
        from sampo.structurator.delete_graph_node import delete_graph_node
        from sampo.structurator.graph_insertion import graph_in_graph_insertion
        from sampo.structurator.insert_wu import insert_work_unit
        sim = self.sim
        other, om = self.new_graph(big=False)
        what = sim.draw('mistake', 3)
        try:
            if what == 0:
                delete_graph_node(wg, 'no such work')
            elif what == 1:
                insert_work_unit(wg, other.start.work_unit, [other.nodes[1]], [self.node(wg, m, self.works(m)[0])])
            else:
                graph_in_graph_insertion(wg, wg.start, self.node(other, om, self.works(om)[0]), other)
        except Exception as e:
            sim.event('mistake', what, 'refused with', type(e).__name__)
            sim.fault('impossible request')
        else:
            raise Violation('edit/mistake', f'an impossible request (kind {what}) was not refused')
        compare('graph of the impossible request', om, other)

    def plan(self, wg, m):
        """A plan of the edited graph keeps its dependencies."""
        from sampo.schemas.contractor import Contractor
        from sampo.schemas.resources import Worker
        if any(t not in DEP for _, _, _, t in m.edges):
            return
        sim = self.sim
        if any(w['content'][k] for w in m.works.values() for k in ('materials', 'equipments', 'objects', 'zones')):
            return      # these ask for a site with supplies
        for c in m.heads():
            prios = {m.works[t]['content']['priority'] for t in c}
            if len(prios) > 1:
                return
        for p, c, _, _ in m.edges:
            if m.works[p]['content']['priority'] > m.works[c]['content']['priority']:
                return      # planning asks for priorities that agree with the edges
        need = {}
        for w in m.works.values():
            for r in w['content']['workers']:
                d = dict(r[1:])
                need[d['kind']] = max(need.get(d['kind'], 1), int(d['max_count']))
        cs = [Contractor(id='c', name='c', workers={k: Worker(f'c-{k}', k, n, contractor_id='c') for k, n in sorted(need.items())} or
                         {'driver': Worker('c-driver', 'driver', 2, contractor_id='c')})]
        cfg = ops.draw_heuristic(sim, allow=['heft', 'hb', 'topo', 'lft'], ropt=False)
        sim.event('plan', cfg['kind'])
        est = ops.sim_estimator(dict(productivity=[]))
        s = ops.make_scheduler(cfg, est).schedule(wg, cs)[0]
        at = {w.id: (int(w.start_time), int(w.finish_time)) for w in s.works}
        ids = {t: w['id'] for t, w in m.works.items()}
        if set(at) != set(ids.values()):
            raise Violation('edit/plan', f'{cfg["kind"]}: planned {len(at)} of {len(ids)} works')
        for p, c, lag, t in m.edges:
            if at[ids[c]][0] < at[ids[p]][1] + int(lag):
                raise Violation('edit/plan', f'{cfg["kind"]}: {c} starts {at[ids[c]][0]}, its predecessor {p} finishes '
                                             f'{at[ids[p]][1]} + lag {lag} ({t})')

    def drop(self):
        if len(self.live) > 1:
            i = self.sim.draw('drop', len(self.live))
            self.live.pop(i)
            gc.collect()
            self.sim.fault('graph dropped and collected')


@register('P20')
def p20(sim):
    s = Session(sim)
    s.live.append(list(s.new_graph()))
    n = 2 + sim.draw('steps', 8)
    edits = 0
    for step in range(n):
        i = sim.draw('which', len(s.live))
        wg, m = s.live[i]
        what = sim.draw('edit', 12)
        if len(m.works) > 40:
            what = 0
        made = None
        if what in (0, 1, 2):
            made = s.delete(wg, m)
        elif what in (3, 4):
            made = s.insert(wg, m)
        elif what == 5:
            made = s.graft(wg, m)
        elif what == 6:
            made = s.renumber(wg, m)
        elif what == 7:
            made = s.copy(wg, m)
        elif what == 8:
            s.obstruct(i)
        elif what == 9:
            s.table(wg, m)
        elif what == 10:
            s.mistake(wg, m)
        else:
            s.plan(wg, m)
        if made is not None:
            edits += 1
            out, want = made
            compare(f'step {step}', want, out)
            ids = {n.id for n in out.nodes}
            if any(a is b for a in out.nodes for b in wg.nodes):
                raise Violation('edit/shared', 'the new graph shares nodes with the old one')
            s.live.append([out, want])
            if sim.flag('replace', 0.4):
                s.live.pop(i)
                del wg
                gc.collect()
                sim.fault('graph dropped and collected')
            if sim.flag('plan-it', 0.3):
                s.plan(out, want)
            del out
            sim.state((what, len(want.works), len(want.edges), len(s.live)))
        wg = None
        s.check_all(f'after step {step}')
        if sim.flag('drop-one', 0.15):
            s.drop()
            s.check_all(f'after dropping at step {step}')
    sim.meta['nontrivial'] = edits > 0

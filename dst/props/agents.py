"""P26: the multi-agent model - a graph of blocks of works is auctioned among agents with contractors of their own."""
import contextlib
import dataclasses
import gc
import io
import random

from dst import ops, simpool
from dst.choice import Violation
from dst.isolate import attempt, isolated
from dst.oracle import canonical, check_capacity, check_schedule, feasible_exists, sched_rows
from dst.props import register
from dst.props.feasibility import environment
from dst.world import KINDS, Problem, Profile, gen_world, make_contractors, make_graph

PARTS = ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity', 'duration')
EASY = tuple(p for p in PARTS if p != 'duration')
INF = 2_000_000_000


def want(cond, what, msg):
    if not cond:
        raise Violation('agents/' + what, msg)


# ------------------------------------------------------------------ what is drawn
def draw_blocks(sim, tag, n=None):
    """Blocks in an order the edges agree with; each a world without contractors of its own."""
    blocks = []
    n = n if n is not None else 1 + sim.draw('blocks', 6)
    density = sim.draw('bdensity', 4)
    for i in range(n):
        b = dict(empty=sim.flag('empty', 0.1), edges=[], obstruction=None)
        if not b['empty']:
            p = Profile(spec=False, productivity=False, priorities=False)
            p.max_macros = 1 + sim.draw('bsize', 5)
            p.max_contractors = 1
            b['world'] = gen_world(sim, p, tag=f'{tag}b{i}')
            b['world']['graph_seed'] = 100 + i
            if sim.flag('obstructed', 0.2):
                b['obstruction'] = dict(p=[1.0, 0.5, 0.0][sim.draw('oprob', 3)], seed=sim.draw('oseed', 1000),
                                        world=gen_world(sim, Profile(spec=False, productivity=False, priorities=False, max_macros=2, max_contractors=1),
                                                        tag=f'{tag}o{i}'), static=sim.flag('ostatic'))
                b['obstruction']['world']['graph_seed'] = 200 + i
        for _ in range(sim.draw('bpar', min(i, density) + 1)):
            j = sim.draw('bp', i)
            if j not in b['edges']:
                b['edges'].append(j)
        blocks.append(b)
    return blocks


def parts_of(blocks):
    for b in blocks:
        if not b['empty']:
            yield b['world']
            if b['obstruction']:
                yield b['obstruction']['world']


def draw_agents(sim, blocks, weak=True):
    need = {}
    for w in parts_of(blocks):
        for x in w['works']:
            for r in x['reqs']:
                need[r['kind']] = max(need.get(r['kind'], 0), r['min'], 1)
    kinds = sorted(need) or ['driver']
    agents = []
    for a in range(1 + sim.draw('agents', 4)):
        contractors = []
        for c in range(1 + sim.weighted('acontr', 3, 0.6)):
            ks = sim.shuffle('akinds', kinds)
            workers = [[k, need.get(k, 1) + sim.draw('asupply', 6), None] for k in ks]
            if c > 0 and sim.flag('apoor', 0.4):
                workers = [[k, max(1, n - 2), None] for k, n, _ in workers][:max(1, len(workers) - 1)]
            contractors.append(dict(id=f'a{a}c{c}', workers=workers))
        kind = sim.pick('ascheduler', ['heft', 'hb', 'topo', 'lft', 'rtopo', 'rlft', 'ga'])
        cfg = ops.draw_ga(sim, 1, 4, multi=False) if kind == 'ga' else ops.draw_heuristic(sim, [kind])
        if kind == 'ga':
            cfg['gens'] = 1 + cfg['gens'] % 2
        cfg.pop('pool', None)
        productivity = []
        if sim.flag('aprod', 0.5):
            productivity = [[k, None, [1.0, 0.5, 1.5, 2.0, 0.7][sim.draw('aprodv', 5)]] for k in kinds]
        agents.append(dict(name=f'Agent {a}', cfg=cfg, contractors=contractors, productivity=productivity))
    if weak and sim.flag('weak-agent', 0.2):
        a = agents[sim.draw('weak-who', len(agents))]
        for c in a['contractors']:
            c['workers'] = [[k, max(1, need.get(k, 1) - 1), x] for k, n, x in c['workers']]
    return agents


def random_cfg(cfg):
    return cfg['kind'] in ('ga', 'rtopo', 'rlft')


# ------------------------------------------------------------------ library objects
class Session:
    def __init__(self, blocks, agents, how, order=None):
        from sampo.scheduler.multi_agency.block_graph import BlockGraph, BlockNode
        from sampo.scheduler.multi_agency.multi_agency import Agent, Manager, StochasticManager
        from sampo.scheduler.multi_agency.block_generator import generate_empty_graph
        from sampo.scheduler.utils.obstruction import OneInsertObstruction
        self.blocks, self.adesc, self.how = blocks, agents, how
        self.offers = None
        s = self
        nodes = []
        for b in blocks:
            wg = generate_empty_graph() if b['empty'] else make_graph(b['world'])
            ob = None
            if b['obstruction']:
                o = b['obstruction']
                if o['static']:
                    ob = OneInsertObstruction.from_static_graph(o['p'], random.Random(o['seed']), make_graph(o['world']))
                else:
                    ob = OneInsertObstruction(o['p'], random.Random(o['seed']), lambda r, o=o: make_graph(o['world']))
            nodes.append(BlockNode(wg, ob))
        self.nodes = nodes
        self.bg = BlockGraph([nodes[i] for i in (order or range(len(nodes)))])
        for b, n in zip(blocks, nodes):
            for j in b['edges']:
                BlockGraph.add_edge(nodes[j], n)
        self.index = {n.id: i for i, n in enumerate(nodes)}

        class Watched(Agent):
            def offer(self, wg, parent_time):
                o = super().offer(wg, parent_time)
                if s.offers is not None:
                    s.offers.append((self.name, int(o[0]), int(o[1]), canonical(o[2])))
                return o

        self.estimators = []
        self.agents = []
        for a in agents:
            est = ops.sim_estimator(dict(productivity=a['productivity']))
            self.estimators.append(est)
            self.agents.append(Watched(a['name'], ops.make_scheduler(a['cfg'], est),
                                       make_contractors(dict(contractors=a['contractors']))))
        self.manager = {'plain': Manager, 'stochastic': StochasticManager}.get(how, lambda _: None)(self.agents)

    def world(self, i, agent, wg=None):
        """Block i, as it is planned, as plain data."""
        b, a = self.blocks[i], self.adesc[agent]
        base = dict(contractors=a['contractors'], productivity=a['productivity'], spec={}, start=0)
        if b['empty']:
            return dict(base, works=[], macros=[])
        works = [dict(w, edges=list(w['edges'])) for w in b['world']['works']]
        macros = list(b['world']['macros'])
        if wg is not None and b['obstruction']:
            known = {w['id'] for w in works} | {wg.start.id, wg.finish.id}
            extra = [n for n in wg.nodes if n.id not in known]
            if extra:
                ow = b['obstruction']['world']
                inner = {w['id'] for w in ow['works']}
                first = [n for n in extra if n.id not in inner and any(e.start.id in known for e in n.edges_to)]
                last = [n for n in extra if n.id not in inner and any(e.finish.id in known for e in n.edges_from)]
                want(len(extra) == len(inner) + 2 and len(first) == len(last) == 1, 'obstruction',
                     f'block {i} got {sorted(n.id for n in extra)}, {sorted(inner)} were to be inserted')
                for n in (first[0], last[0]):
                    works.append(dict(id=n.id, name='', reqs=[], edges=[], service=True, volume=0.0))
                    macros.append([n.id])
                service = {n.id: w for n in (first[0], last[0]) for w in works if w['id'] == n.id}
                works += [dict(w, edges=list(w['edges']) + [[first[0].id, 0, 'FS']]) for w in ow['works']]
                macros += ow['macros']
                service[last[0].id]['edges'] = [[w['id'], 0, 'FS'] for w in ow['works']]
                before = [e.start.id for e in first[0].edges_to if e.start.id in known and e.start.id != wg.start.id]
                after = [e.finish.id for e in last[0].edges_from if e.finish.id in known]
                service[first[0].id]['edges'] = [[x, 0, 'FS'] for x in before]
                for w in works:
                    if w['id'] in after:
                        w['edges'].append([last[0].id, 0, 'FS'])
        return dict(base, works=works, macros=macros)

    def able(self, agent, i, obstructed=True):
        b = self.blocks[i]
        if b['empty']:
            return True
        ws = [b['world']] + ([b['obstruction']['world']] if b['obstruction'] and obstructed else [])
        a = self.adesc[agent]
        return all(feasible_exists(dict(w, contractors=a['contractors'], spec={})) for w in ws)


def topological(order, bg_edges):
    pos = {n: k for k, n in enumerate(order)}
    return all(pos[a] < pos[b] for a, b in bg_edges)


def edges_of(nodes, index):
    out = sorted((index[n.id], index[m.id]) for n in nodes for m in n.blocks_to)
    back = sorted((index[m.id], index[n.id]) for n in nodes for m in n.blocks_from)
    return out, back


# ------------------------------------------------------------------ judging
class Ledger:
    """What happened in the auctions, and what the statistics of the agents should be."""

    def __init__(self, s):
        self.s = s
        self.starts = []
        self.rows = {a['name']: [] for a in s.adesc}
        self.spans = {a['name']: [] for a in s.adesc}
        self.monotone = True

    def won(self, name, start, end, rows):
        if self.starts and start < max(self.starts):
            self.monotone = False
        self.starts.append(start)
        self.rows[name].append(rows)
        self.spans[name].append((start, end))

    def judge(self, what):
        top = max(self.starts, default=0)
        for a, d in zip(self.s.agents, self.s.adesc):
            spans = self.spans[a.name]
            contr = {c['id']: {k: n for k, n, _ in c['workers']} for c in d['contractors']}
            ops.raise_findings('agents/', [(x, f'{what}{a.name}: {y}') for x, y in check_capacity(contr, self.rows[a.name])])
            end = max([e for _, e in spans], default=0)
            want(int(a.end_time) == end, 'end-time', f'{what}{a.name} ends at {a.end_time}, its blocks {spans}')
            busy = 0
            at = 0
            for x, y in sorted((x, min(y, top)) for x, y in spans):
                if y > max(x, at):
                    busy += y - max(x, at)
                    at = y
            idle = top - busy
            got = int(a.downtime)
            if self.monotone:
                want(got == idle, 'downtime', f'{what}{a.name} idle for {got}, its blocks {spans}, starts {self.starts}')
            else:
                want(0 <= got <= top, 'downtime', f'{what}{a.name} idle for {got} of {top}, blocks {spans}, starts {self.starts}')


def judge_block(s, i, name, start, end, schedule, wg, earliest, what, parts=PARTS):
    k = next((k for k, a in enumerate(s.adesc) if a['name'] == name), None)
    want(k is not None, 'agent', f'{what}block {i} given to {name}')
    world = s.world(i, k, wg)
    rows = sched_rows(schedule)
    want(earliest <= start <= end < INF, 'start', f'{what}block {i}: {start}..{end}, its predecessors end at {earliest}')
    early = [r for r in rows if r['start'] < r['finish'] and (r['start'] < start or r['finish'] > end)]
    want(not early, 'span', f'{what}block {i}: {early[:1]} outside of {start}..{end}')
    want(max(r['finish'] for r in rows) == end, 'span', f'{what}block {i} ends at {end}, its works at {max(r["finish"] for r in rows)}')
    ops.raise_findings('agents/', [(a, f'{what}block {i} by {name}: {b}') for a, b in
                                   check_schedule(world, wg, schedule, earliest, parts, rows=rows)])
    return rows


def key(blocks, r):
    i, name, start, end, rows = r
    return (i, name, start, end, rows if not blocks[i]['empty'] else len(rows))


def collect(s, result):
    """What the client reads: who does which block when, and how."""
    return sorted(key(s.blocks, (s.index[bid], sb.agent.name, int(sb.start_time), int(sb.end_time),
                                 strip(canonical(sb.schedule), sb.wg))) for bid, sb in result.items())


def strip(rows, wg):
    """Works that bear random identifiers: starts, finishes."""
    return sorted(('' if len(r[0]) > 12 else r[0],) + tuple(r[1:]) for r in rows)


def expected_winner(s, wg, parent_time, skip=()):
    """Independent offers of the agents: who ends first, the first of those who do."""
    from sampo.schemas.time import Time
    best = None
    for a in s.agents:
        try:
            start, end, schedule, _ = a.offer(wg, Time(parent_time))
        except Exception as e:
            if type(e).__name__ == 'NoSufficientContractorError':
                continue
            raise
        if best is None or int(end) < best[2]:
            best = (a.name, int(start), int(end), strip(canonical(schedule), wg))
    return best


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ------------------------------------------------------------------ scenarios
def crash(what, e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)[-1]
    return Violation('agents/crash', f'{what}{type(e).__name__}: {str(e)[:200]} at {tb.filename.split("/")[-1]}:{tb.name}')


def run_session(sim, blocks, agents, how, order):
    """The whole graph at once, as the manager does it, or auction after auction as a client that survives failures."""
    from sampo.schemas.time import Time
    s = Session(blocks, agents, how, order)
    deterministic = not any(random_cfg(a['cfg']) for a in agents)
    hopeless = [i for i in range(len(blocks)) if not any(s.able(k, i) for k in range(len(agents)))]
    maybe = [i for i in hopeless if any(s.able(k, i, False) for k in range(len(agents)))]
    what = f'{how} manager, {len(blocks)} blocks, {[ops.describe(a["cfg"]) for a in agents]}: '
    before = edges_of(s.nodes, s.index)
    toposorted = [s.index[n.id] for n in s.bg.toposort()]
    want(sorted(toposorted) == list(range(len(blocks))) and topological(toposorted, before[0]), 'toposort',
         f'{what}{toposorted} with edges {before[0]}')
    ledger = Ledger(s)
    stepwise = sim.flag('stepwise', 0.5)
    sim.event('session', how, len(blocks), [a['cfg']['kind'] for a in agents], 'stepwise' if stepwise else 'at once')

    def refused(e):
        # nobody can do some block: the client is told so
        sim.event('  ->', type(e).__name__, str(e)[:80])
        want(type(e).__name__ == 'NoSufficientAgents', 'refusal', f'{what}{type(e).__name__}: {str(e)[:150]}')
        return None

    if not stepwise:
        try:
            with quiet():
                result = s.manager.manage_blocks(s.bg, logger=print if sim.flag('logger', 0.3) else None)
        except Exception as e:
            if hopeless:
                return s, refused(e), ledger
            raise crash(what, e)
        want(not set(hopeless) - set(maybe), 'impossible', f'{what}blocks {hopeless} can be done by no agent')
        want(sorted(result) == sorted(s.index), 'blocks', f'{what}{len(result)} of {len(blocks)} blocks scheduled')
        for i in toposorted:
            sb = result[s.nodes[i].id]
            want(sb.id == s.nodes[i].id and sb.wg is s.nodes[i].wg and sb.agent in s.agents, 'blocks', f'{what}block {i}: {sb}')
            want(int(sb.duration) == int(sb.end_time) - int(sb.start_time), 'duration', f'{what}block {i}: {sb}')
            earliest = max([int(result[s.nodes[j].id].end_time) for j in blocks[i]['edges']], default=0)
            rows = judge_block(s, i, sb.agent.name, int(sb.start_time), int(sb.end_time), sb.schedule, sb.wg, earliest, what)
            ledger.won(sb.agent.name, int(sb.start_time), int(sb.end_time), rows)
        ledger.judge(what)
        return s, result, ledger

    from sampo.scheduler.multi_agency.multi_agency import ScheduledBlock
    result = {}
    for i in toposorted:
        node = s.nodes[i]
        if node.obstruction:
            node.obstruction.generate(node.wg)
        earliest = max([int(result[s.nodes[j].id].end_time) for j in blocks[i]['edges']], default=0)
        parent_time = earliest + 1
        for _ in range(3):
            d = sim.weighted('meanwhile', 4, 0.6)
            if d == 0:
                break
            if d == 1:
                # somebody asks agents for offers and takes none
                for a in s.agents:
                    other = s.nodes[sim.draw('asked', len(s.nodes))]
                    attempt(lambda: a.offer(other.wg, Time(sim.draw('asked-at', 50))))
                sim.event('offers nobody takes')
                sim.fault('offers nobody takes')
            elif d == 2:
                gc.collect()
            else:
                victim = sim.draw('victim', len(s.agents))
                state = [(int(a.end_time), int(a.downtime)) for a in s.agents]
                s.estimators[victim].fail_after = sim.draw('fail-after', 120)
                try:
                    out = None
                    with quiet():
                        out = s.manager.run_auction(node.wg, Time(parent_time))
                except ops.InjectedFault:
                    sim.fault('agent failing in an auction')
                    sim.event('auction of block', i, 'failed because of', victim)
                    want(state == [(int(a.end_time), int(a.downtime)) for a in s.agents], 'failed-auction',
                         f'{what}a failed auction of block {i} changed the agents')
                except Exception as e:
                    if i in hopeless:
                        return s, refused(e), ledger
                    raise crash(what, e)
                finally:
                    s.estimators[victim].fail_after = None
                if out is not None:
                    break
        else:
            out = None
        if d != 3 or out is None:
            guess = expected_winner(s, node.wg, parent_time) if deterministic and sim.flag('guessed', 0.6) else None
            s.offers = []
            try:
                with quiet():
                    out = s.manager.run_auction(node.wg, Time(parent_time))
            except Exception as e:
                if i in hopeless:
                    return s, refused(e), ledger
                raise crash(what, e)
            offers, s.offers = s.offers, None
        else:
            guess = offers = None
        start, end, schedule, agent = out
        told = (agent.name, int(start), int(end), strip(canonical(schedule), node.wg))
        sim.event('block', i, told[:3], 'expected', guess and guess[:3])
        if guess is not None:
            want(told == guess, 'winner', f'{what}block {i} at {parent_time} won by {told[:3]}, the best offer is {guess[:3]}')
        elif offers:
            best = {}
            for name, _, e, _ in offers:
                best.setdefault(name, e)
            first = min(best.values())
            want(how == 'stochastic' or best.get(agent.name) == first, 'winner', f'{what}block {i}: {agent.name} won, first offers {best}')
        rows = judge_block(s, i, agent.name, int(start), int(end), schedule, node.wg, earliest, what)
        ledger.won(agent.name, int(start), int(end), rows)
        result[node.id] = ScheduledBlock(wg=node.wg, agent=agent, schedule=schedule, start_time=start, end_time=end)
    want(not set(hopeless) - set(maybe), 'impossible', f'{what}blocks {hopeless} can be done by no agent')
    ledger.judge(what)
    return s, result, ledger


def judge_validator(sim, s, result, what):
    """The validation of the library agrees."""
    from sampo.scheduler.multi_agency.block_validation import validate_block_schedule
    try:
        validate_block_schedule(s.bg, result, s.agents)
    except AssertionError as e:
        raise Violation('agents/validator-refuses', f'{what}{str(e)[:200]}')
    edges = [(j, i) for i, b in enumerate(s.blocks) for j in b['edges']]
    from sampo.schemas.time import Time
    if edges and sim.flag('damaged', 0.5):
        j, i = edges[sim.draw('which', len(edges))]
        a, b = result[s.nodes[j].id], result[s.nodes[i].id]
        if int(a.end_time) > 0:
            bad = dict(result)
            bad[b.id] = dataclasses.replace(b, start_time=Time(int(a.end_time) - 1))
            sim.event('damaged', j, i)
            try:
                validate_block_schedule(s.bg, bad, s.agents)
            except AssertionError:
                pass
            else:
                raise Violation('agents/validator-accepts', f'{what}block {i} before the end of {j}')
    if len(s.agents) > 1 and sim.flag('shared', 0.3):
        from sampo.scheduler.multi_agency.multi_agency import Agent
        a = s.agents[0]
        try:
            validate_block_schedule(s.bg, result, list(s.agents) + [Agent('thief', a.scheduler, a.contractors[:1])])
        except AssertionError:
            pass
        else:
            raise Violation('agents/validator-accepts', f'{what}a contractor of two agents')


def judge_merged(sim, s, what):
    """The graph of works of the whole graph of blocks."""
    import copy
    before = edges_of(s.nodes, s.index)
    contents = [sorted(n.id for n in x.wg.nodes) for x in s.nodes]
    c = copy.copy(s.bg)
    got = edges_of(c.nodes, {n.id: s.index[n.id] for n in c.nodes})
    want(got == before, 'copy', f'{what}the copy has edges {got[0]}, the graph {before[0]}')
    want(not {id(n) for n in c.nodes} & {id(n) for n in s.nodes}, 'copy', f'{what}the copy shares nodes')
    wg = s.bg.to_work_graph()
    want(edges_of(s.nodes, s.index) == before and contents == [sorted(n.id for n in x.wg.nodes) for x in s.nodes],
         'merge', f'{what}the graph of blocks has changed')
    want(sorted(n.id for n in wg.nodes) == sorted(sum(contents, ['start', 'finish'])), 'merge',
         f'{what}works {sorted(n.id for n in wg.nodes)[:5]} instead of {contents[:2]}')
    works, macros = [], []
    for i, (b, n) in enumerate(zip(s.blocks, s.nodes)):
        w = s.world(i, 0, n.wg)
        works += w['works']
        macros += w['macros']
        a, z = n.wg.start.id, n.wg.finish.id
        for x in works[-len(w['works']):] if w['works'] else []:
            x['edges'] = list(x['edges']) + [[a, 0, 'FS']]
        works.append(dict(id=a, reqs=[], service=True, volume=0.0, edges=[[s.nodes[j].wg.finish.id, 0, 'FS'] for j in b['edges']]))
        works.append(dict(id=z, reqs=[], service=True, volume=0.0, edges=[[a, 0, 'FS']] + [[x['id'], 0, 'FS'] for x in w['works']]))
        macros += [[a], [z]]
    contractors = [c for a in s.adesc for c in a['contractors']]
    world = dict(works=works, macros=macros, contractors=contractors, productivity=[], spec={}, start=0)
    if not feasible_exists(world):
        return
    pr = Problem.__new__(Problem)
    from dst.world import make_spec
    pr.world, pr.wg, pr.contractors = world, wg, make_contractors(world)
    pr.spec, pr.landscape, pr.estimator = make_spec(world), None, ops.sim_estimator(world)
    cfg = ops.draw_heuristic(sim)
    try:
        schedule = ops.plan(cfg, pr)[0]
    except Exception as e:
        raise crash(what + f'the graph of all works, {ops.describe(cfg)}: ', e)
    ops.raise_findings('agents/merged-', [(a, what + b) for a, b in check_schedule(world, wg, schedule, 0, PARTS)])
    sim.event('merged', len(works), max(r['finish'] for r in sched_rows(schedule)))


def neural(sim, blocks, agents, order):
    """The manager that asks predictors which algorithm and which contractor suit a block."""
    import numpy as np
    from sampo.scheduler.multi_agency.multi_agency import NeuralManager
    s = Session(blocks, agents, 'neural', order)
    algos = []
    for a in s.agents:
        if not any(type(x) is type(a.scheduler) for x in algos):
            algos.append(a.scheduler)
    algos = [algos[i] for i in sim.shuffle('algos', list(range(len(algos))))]
    line = s.bg.toposort()
    want(topological([s.index[n.id] for n in line], edges_of(s.nodes, s.index)[0]), 'toposort', str([s.index[n.id] for n in line]))
    said = [(sim.draw('algo', len(algos)), [1 + sim.draw('predicted', 9) for _ in agents[0]['contractors'][0]['workers']])
            for _ in line]

    class Trainer:
        def __init__(self, of):
            self.of = of

        def predict(self, x):
            return np.array([self.of(said[x[0]])])

        predict_proba = predict

    marks = []

    class Seen(NeuralManager):
        def run_auction(self, wg, index, parent_time=None, **kw):
            marks.append((index, int(parent_time), [int(a.end_time) for a in s.agents]))
            return super().run_auction(wg, index, parent_time, **kw)

    m = Seen(s.agents, Trainer(lambda p: p[0]), Trainer(lambda p: p[1]), algos, line, list(range(len(line))))
    what = f'neural manager, {len(blocks)} blocks, {[ops.describe(a["cfg"]) for a in agents]}: '
    try:
        with quiet():
            result = m.manage_blocks()
    except Exception as e:
        raise crash(what, e)
    want(sorted(result) == sorted(s.index), 'blocks', f'{what}{len(result)} of {len(blocks)} blocks scheduled')
    ledger = Ledger(s)
    for k, n in enumerate(line):
        i = s.index[n.id]
        sb = result[n.id]
        earliest = max([int(result[s.nodes[j].id].end_time) for j in blocks[i]['edges']], default=0)
        rows = judge_block(s, i, sb.agent.name, int(sb.start_time), int(sb.end_time), sb.schedule, sb.wg, earliest, what)
        ledger.won(sb.agent.name, int(sb.start_time), int(sb.end_time), rows)
        algo, predicted = type(algos[said[k][0]]), said[k][1]
        seen = next((x for x in marks if x[0] == k), None)
        if seen is None:
            continue
        best = None
        for a, end in zip(s.agents, seen[2]):
            counts = [w.count for w in a.contractors[0].workers.values()]
            score = (0 if seen[1] > end else 1, 0 if isinstance(a.scheduler, algo) else 1,
                     sum((x - y) ** 2 for x, y in zip(counts, predicted)))
            if best is None or score < best[0]:
                best = (score, a.name)
        want(sb.agent.name == best[1], 'choice', f'{what}block {i} at {seen[1]} given to {sb.agent.name}, {best} suits best; '
                                                 f'predicted {algo.__name__} {predicted}, agents free from {seen[2]}')
    ledger.judge(what)
    return s, result, ledger


def stochastic(sim, blocks, agents, order):
    """Productivity that is really random: what holds whatever it turns out to be."""
    from sampo.schemas.interval import IntervalGaussian
    from sampo.schemas.time import Time
    s = Session(blocks, agents, 'stochastic', order)
    what = f'stochastic manager, {len(blocks)} blocks, {[ops.describe(a["cfg"]) for a in agents]}: '
    custom = sim.flag('own-productivity', 0.6)
    for k, (est, a) in enumerate(zip(s.estimators, agents)):
        est.rand = random.Random(sim.draw('prod-seed', 10 ** 6))
        if custom:
            for kind in KINDS:
                mean = [1.0, 0.7, 1.5][sim.draw('mean', 3)]
                est.set_worker_productivity(IntervalGaussian(mean, [0.0, 0.2, 0.5][sim.draw('sigma', 3)], mean / 2, 2 * mean), kind)
    try:
        with quiet():
            result = s.manager.manage_blocks(s.bg)
    except Exception as e:
        raise crash(what, e)
    ledger = Ledger(s)
    for n in s.bg.toposort():
        i = s.index[n.id]
        sb = result[n.id]
        earliest = max([int(result[s.nodes[j].id].end_time) for j in blocks[i]['edges']], default=0)
        rows = judge_block(s, i, sb.agent.name, int(sb.start_time), int(sb.end_time), sb.schedule, sb.wg, earliest, what, EASY)
        ledger.won(sb.agent.name, int(sb.start_time), int(sb.end_time), rows)
    ledger.judge(what)
    # the auction is over: the estimators of the agents are as they were
    from sampo.schemas.resources import WorkerProductivityMode
    for est in s.estimators:
        want(est._productivity_mode is WorkerProductivityMode.Static, 'mode', f'{what}an estimator was left in the stochastic mode')
    return s, result, ledger


# ------------------------------------------------------------------ generated graphs of blocks
def judge_generated(sim):
    from sampo.generator.base import SimpleSynthetic
    from sampo.scheduler.multi_agency.block_generator import SyntheticBlockGraphType, generate_block_graph
    from sampo.scheduler.multi_agency.multi_agency import Agent, Manager
    kind = sim.pick('type', ['RANDOM', 'RANDOM', 'SEQUENTIAL', 'PARALLEL', 'QUEUES'])
    n = 1 + sim.draw('gblocks', 6)
    prop = [sim.draw('prop', 3) for _ in range(3)]
    if not any(prop):
        prop[sim.draw('prop-one', 3)] = 1
    prob = [0.5, 0.0, 1.0, 0.1, 0.3, 0.9][sim.draw('prob', 6)]
    seed = sim.draw('gseed', 10 ** 6)
    bottoms = [5 + sim.draw('bottom', 40) for _ in range(8)]
    queues = [1 + sim.draw('in-queue', 3) for _ in range(1 + sim.draw('queues', 3))]
    lines = []

    def make():
        return generate_block_graph(SyntheticBlockGraphType[kind], n, prop, lambda i: (bottoms[i], None), prob, random.Random(seed),
                                    queues_num=len(queues), queues_blocks=queues, queues_edges=queues, logger=lines.append)

    what = f'{kind} of {n if kind != "QUEUES" else queues}, proportions {prop}, probability {prob}, seed {seed}: '
    try:
        bg = make()
    except Exception as e:
        raise crash(what, e)
    full = [x for x in bg.nodes if x.wg.vertex_count > 2]
    empty = [x for x in bg.nodes if x.wg.vertex_count == 2]
    want(all(x.is_service() for x in empty) and not any(x.is_service() for x in full), 'gen-service', what)
    index = {x.id: i for i, x in enumerate(bg.nodes)}
    want(len(index) == len(bg) == len(bg.nodes) and all(bg[x.id] is x for x in bg.nodes), 'gen-index', f'{what}{len(index)} ids of {len(bg.nodes)}')
    to, frm = edges_of(bg.nodes, index)
    want(to == frm, 'gen-edges', f'{what}{to} and back {frm}')
    want(len(set(to)) == len(to), 'gen-edges', f'{what}{to}')
    pos = {index[x.id]: k for k, x in enumerate(bg.toposort())}
    want(sorted(pos) == list(range(len(bg.nodes))) and all(pos[a] < pos[b] for a, b in to), 'toposort', f'{what}{pos} {to}')
    f = [index[x.id] for x in full]
    sizes = [x.wg.vertex_count for x in full]
    if kind == 'QUEUES':
        want(len(full) == sum(queues) and len(empty) == len(queues) + 1, 'gen-count', f'{what}{sizes}')
        # a service block before and after every queue
        want(all(len(x.blocks_from) == len(x.blocks_to) == 1 for x in full), 'gen-queues', what)
        at = [x for x in empty if not x.blocks_from]
        want(len(at) == 1, 'gen-queues', what)
        at, got = at[0], []
        while at.blocks_to:
            nxt = {id(y): y for x in at.blocks_to for y in x.blocks_to}
            want(len(nxt) == 1, 'gen-queues', what)
            got.append(len(at.blocks_to))
            want([x.wg.vertex_count >= bottoms[k] for k, x in enumerate(at.blocks_to)] == [True] * got[-1], 'gen-size', f'{what}{sizes} {bottoms}')
            at = next(iter(nxt.values()))
        want(got == queues, 'gen-queues', f'{what}{got}')
    else:
        want(len(full) == n and len(empty) == 2, 'gen-count', f'{what}{sizes}')
        want(all(s >= b for s, b in zip(sizes, bottoms)), 'gen-size', f'{what}{sizes} {bottoms}')
        first = [index[x.id] for x in empty if not x.blocks_from]
        last = [index[x.id] for x in empty if not x.blocks_to]
        want(len(first) == len(last) == 1 and first != last, 'gen-ends', f'{what}{to}')
        want({b for a, b in to if a == first[0]} == set(f) == {a for a, b in to if b == last[0]}, 'gen-ends', f'{what}{to}')
        inner = sorted((f.index(a), f.index(b)) for a, b in to if a in f and b in f)
        every = [(a, b) for a in range(n) for b in range(a + 1, n)]
        if kind == 'SEQUENTIAL':
            want(inner == [(i, i + 1) for i in range(n - 1)], 'gen-inner', f'{what}{inner}')
        elif kind == 'PARALLEL':
            want(not inner, 'gen-inner', f'{what}{inner}')
        else:
            want(set(inner) <= set(every), 'gen-inner', f'{what}{inner}')
            want(prob > 0 or not inner, 'gen-inner', f'{what}{inner}')
            want(prob < 1 or inner == every, 'gen-inner', f'{what}{inner}')
    random.seed(5)
    again = make()
    want(sizes == [x.wg.vertex_count for x in again.nodes if x.wg.vertex_count > 2] and
         edges_of(again.nodes, {x.id: i for i, x in enumerate(again.nodes)})[0] == to and lines[0] == lines[-1], 'gen-seed',
         f'{what}another graph by the same seed')
    sim.event('generated', kind, sizes, to)
    sim.state(('generated', kind, tuple(sizes), tuple(to)))
    if sum(sizes) <= 120 and sim.flag('managed', 0.5):
        p = SimpleSynthetic(seed)
        contractors = [p.contractor(5 + 5 * sim.draw('pack', 4)) for _ in range(1 + sim.draw('managers', 3))]
        from sampo.scheduler.heft.base import HEFTScheduler
        from sampo.scheduler.lft.base import LFTScheduler
        from sampo.scheduler.topological.base import TopologicalScheduler
        agents = [Agent(f'Agent {i}', sim.pick('by', [HEFTScheduler, LFTScheduler, TopologicalScheduler])(), [c])
                  for i, c in enumerate(contractors)]
        try:
            with quiet():
                result = Manager(agents).manage_blocks(bg)
        except Exception as e:
            raise crash(what, e)
        want(sorted(result) == sorted(index), 'blocks', f'{what}{len(result)} of {len(index)}')
        from dst.props.synthetic import world_of
        for x in bg.nodes:
            sb = result[x.id]
            before = max([int(result[y.id].end_time) for y in x.blocks_from], default=0)
            want(before <= int(sb.start_time) <= int(sb.end_time) < INF, 'start', f'{what}{sb} after {before}')
            rows = sched_rows(sb.schedule)
            ops.raise_findings('agents/', [(a, f'{what}{b}') for a, b in check_schedule(
                world_of(x.wg, sb.agent.contractors[0]), x.wg, sb.schedule, before, [q for q in PARTS if q != 'chain'], rows=rows)])
        for a in agents:
            c = a.contractors[0]
            ops.raise_findings('agents/', [(x, f'{what}{y}') for x, y in check_capacity(
                {c.id: {k: w.count for k, w in c.workers.items()}},
                [sched_rows(sb.schedule) for sb in result.values() if sb.agent is a])])
        sim.event('managed', sorted((index[b], sb.agent.name, int(sb.start_time), int(sb.end_time)) for b, sb in result.items()))
    out = sim.meta.setdefault('outcome', {})
    out['generated'] = out.get('generated', 0) + 1
    sim.meta['nontrivial'] = len(full) > 1


@register('P26')
def p26(sim):
    """Blocks of works auctioned among agents."""
    environment(sim)
    if sim.flag('generated', 0.2):
        return judge_generated(sim)
    blocks = draw_blocks(sim, 'x')
    how = sim.pick('manager', ['plain', 'plain', 'stochastic', 'neural', 'random'])
    agents = draw_agents(sim, blocks, weak=how in ('plain', 'stochastic'))
    if how == 'neural':
        # predictions are about the same kinds for everybody
        n = len(agents[0]['contractors'][0]['workers'])
        for a in agents:
            while len(a['contractors'][0]['workers']) < n:
                a['contractors'][0]['workers'].append([KINDS[5], 1, None])
    order = sim.shuffle('order', list(range(len(blocks)))) if sim.flag('shuffled', 0.5) else None
    simpool.CONFIG['restart'] = 0.0
    if how == 'stochastic':
        # the usual productivity is random in the stochastic mode
        for a in agents:
            a['productivity'] = [[k, None, dict((x[0], x[2]) for x in a['productivity']).get(k, 1.0)] for k in KINDS]
    out = sim.meta.setdefault('outcome', {})
    if how == 'neural':
        s, result, ledger = neural(sim, blocks, agents, order)
    elif how == 'random':
        s, result, ledger = stochastic(sim, blocks, agents, order)
    else:
        deterministic = not any(random_cfg(a['cfg']) for a in agents)
        ref = None
        if deterministic and sim.flag('compared', 0.4):
            def alone():
                t = Session(blocks, agents, how, order)
                with quiet():
                    return collect(t, t.manager.manage_blocks(t.bg))
            ref = isolated(alone)
        s, result, ledger = run_session(sim, blocks, agents, how, order)
        if ref is not None and result is not None:
            got = ('ok', collect(s, result))
            if got != ref:
                diff = next((f'{b[:4]} instead of {a[:4]}' for a, b in zip(ref[1], got[1]) if a != b), '') if ref[0] == 'ok' else ref
                raise Violation('agents/history', f'{how} manager: the undisturbed session ends otherwise: {diff}')
        elif ref is not None and ref[0] == 'ok':
            raise Violation('agents/history', f'{how} manager: refused, the undisturbed session is not')
    key_ = 'refused' if result is None else how
    out[key_] = out.get(key_, 0) + 1
    if result is not None:
        what = f'{how} manager, {len(blocks)} blocks, {[ops.describe(a["cfg"]) for a in agents]}: '
        judge_validator(sim, s, result, what)
        sim.state((how, tuple((r[0], r[1], r[2], r[3]) for r in collect(s, result))))
        if sim.flag('merged', 0.35):
            judge_merged(sim, s, what)
    sim.probe('blocks', len(blocks))
    sim.meta['nontrivial'] = result is not None and len(blocks) > 1

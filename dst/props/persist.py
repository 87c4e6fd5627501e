"""P17: what is saved, copied or sent elsewhere comes back the same, or the failure is reported."""
import copy
import gc
import json
import pickle

from dst import ops, simdisk, snapshot
from dst.choice import Violation
from dst.oracle import check_schedule
from dst.props import register
from dst.props.feasibility import environment
from dst.props.service import small
from dst.simdisk import DISK, SimCrash
from dst.world import Problem, gen_world

NAMES = ['plain', 'Отсыпка насыпи', 'a "quoted"\nname', '', 'tab\tand \\ backslash', 'x' * 700, '\u2028 \U0001f477']


def wg_view(wg):
    """What a work graph means: works, requirements and dependencies, whatever their internal order."""
    g = snapshot.graph(wg)
    for n in g['nodes']:
        n['parents'] = sorted(n['parents'], key=repr)
    g['nodes'] = sorted(g['nodes'], key=lambda n: n['unit']['id'])
    g['lookup'] = sorted((k, n.id) for k, n in wg.dict_nodes.items())
    return g


def zones_view(zs):
    return [(z.name, int(z.from_status), int(z.to_status), int(z.start_time), int(z.end_time)) for z in zs]


def schedule_view(s):
    return sorted(zip(snapshot.schedule(s), [(zones_view(w.zones_pre), zones_view(w.zones_post), sorted(w.model_name.items()))
                                             for w in s.works]))


def contractor_view(c):
    v = snapshot.contractors([c])[0]
    v['equipments'] = [(k, e.id, e.name, e.count, e.contractor_id) for k, e in sorted(c.equipments.items())]
    return v


def project_view(p):
    return dict(schedule=schedule_view(p.schedule), wg=wg_view(p.wg), contractors=[contractor_view(c) for c in p.contractors])


def dress(sim, world):
    """Details that only a file would notice."""
    for w in world['works']:
        if sim.flag('dressed', 0.4):
            w['name'] = NAMES[sim.draw('name', len(NAMES))] or w['name']
            w['description'] = NAMES[sim.draw('description', len(NAMES))]
            w['group'] = NAMES[sim.draw('group', len(NAMES))]
            w['model'] = {'granular_name': w['name'], 'measurement': NAMES[sim.draw('unit', len(NAMES))], 'zone': 'A', 'floor': sim.draw('floor', 9)}
            w['volume'] = [0.1, 1e-9, 123456789.125, 3.0][sim.draw('volume', 4)]
        for key, name in (('zones', 'zone'), ('materials', 'stone'), ('equipments', 'crane'), ('objects', 'pipe')):
            if sim.flag(key, 0.15):
                w[key] = [[f'{name}{i}', 1 + sim.draw('n', 5)] for i in range(1 + sim.draw('k', 2))]
        for e in w['edges']:
            if e[2] == 'FFS' and sim.flag('fraction', 0.2):
                e[1] += 0.5


@register('P17')
def p17(sim):
    environment(sim)
    world = gen_world(sim, small(sim))
    plain = sim.flag('plain', 0.5)
    pr = Problem(world, ops.sim_estimator(world))
    objects = []
    if plain or sim.flag('scheduled', 0.7):
        cfg = ops.draw_heuristic(sim)
        try:
            ss = ops.plan(cfg, pr, sim.weighted('start', 30, 0.6))
            objects += [('schedule', s) for s in ss]
        except Exception as e:
            sim.event('request', ops.describe(cfg), type(e).__name__)
    if not plain:
        dress(sim, world)
        pr = Problem(world, ops.sim_estimator(world))
        for c in pr.contractors:
            from sampo.schemas.resources import Equipment
            if sim.flag('equipment', 0.4):
                c.equipments = {f'e{i}': Equipment(f'{c.id}e{i}', f'e{i}', 1 + i, c.id) for i in range(2)}
    elif objects:
        from sampo.schemas.project import ScheduledProject
        objects.append(('project', ScheduledProject(pr.wg, pr.wg, pr.contractors, objects[0][1])))
    objects += [('graph', pr.wg)] + [('contractor', c) for c in pr.contractors]
    if pr.wg.nodes:
        objects.append(('work', pr.wg.nodes[sim.draw('which-work', len(pr.wg.nodes))].work_unit))
    view = dict(graph=wg_view, schedule=schedule_view, contractor=contractor_view, project=project_view, work=snapshot.work_unit)
    DISK.attach(sim)
    out = sim.meta.setdefault('outcome', {})
    stored = {}                # name -> set of views the file may hold
    sure = {}                  # name -> view the file holds for certain
    n = 0
    for step in range(2 + sim.draw('ops', 6)):
        kind, obj = objects[sim.draw('object', len(objects))]
        want = view[kind](obj)
        cls = type(obj)
        how = ['dump', 'dumps', 'dumpd', 'deepcopy', 'pickle', 'dill', 'dumpd-twice'][sim.draw('how', 7)]
        if kind == 'project' and how in ('deepcopy', 'pickle', 'dill'):
            how = 'dumps'
        sim.event(step, kind, how)
        n += 1
        where = f'{kind} by {how}'
        if how == 'dump':
            got = by_file(sim, cls, obj, kind, want, view[kind], stored, sure, out)
        elif how == 'dumps':
            got = cls.loads(obj.dumps())
        elif how in ('dumpd', 'dumpd-twice'):
            d = obj.dumpd()
            text = json.dumps(d, sort_keys=True)
            got = cls.loadd(d)
            if how == 'dumpd-twice':
                # the plain representation is the client's: loading must not consume it
                if not jsonable(d) or json.dumps(d, sort_keys=True) != text:
                    raise Violation('persist/representation-consumed', f'{where}: loading changed the loaded representation')
                got = cls.loadd(d)
        elif how == 'deepcopy':
            got = copy.deepcopy(obj)
        elif how == 'pickle':
            got = pickle.loads(pickle.dumps(obj))
        else:
            import dill
            got = dill.loads(dill.dumps(obj))
        if got is None:
            continue
        d = snapshot.diff(want, view[kind](got), kind)
        if d:
            raise Violation(f'persist/{kind}', f'{where}: {d}')
        d = snapshot.diff(want, view[kind](obj), kind)
        if d:
            raise Violation(f'persist/{kind}-changed', f'{where} changed the original: {d}')
        out[where] = out.get(where, 0) + 1
        sim.state((kind, how, hash_text(want)))
        after = sim.draw('after', 4)
        if after == 1:
            # the copy goes on living in place of the original, which is dropped
            objects = [(k, got if o is obj else o) for k, o in objects]
            if kind == 'graph':
                pr.wg = got
            if kind == 'contractor':
                pr.contractors = [got if c is obj else c for c in pr.contractors]
            obj = None
            gc.collect()
            d = snapshot.diff(want, view[kind](got), kind)
            if d:
                raise Violation(f'persist/{kind}-depends', f'{where}: the copy changed when the original was dropped: {d}')
        elif after == 2:
            got = None
            gc.collect()
            d = snapshot.diff(want, view[kind](obj), kind)
            if d:
                raise Violation(f'persist/{kind}-depends', f'{where}: the original changed when the copy was dropped: {d}')
        elif after == 3 and plain and kind in ('graph', 'contractor'):
            # the copy is as good for planning as the original
            wg = got if kind == 'graph' else pr.wg
            cs = [got if c is obj else c for c in pr.contractors]
            other = Problem(world, ops.sim_estimator(world))
            other.wg, other.contractors = wg, cs
            cfg = ops.draw_heuristic(sim)
            from sampo.schemas.exceptions import NoSufficientContractorError
            try:
                ss = ops.plan(cfg, other)
            except NoSufficientContractorError:
                continue
            for s in ss:
                f = check_schedule(world, wg, s, 0)
                ops.raise_findings('persist/plan-', [(a, f'{where}, {ops.describe(cfg)}: {b}') for a, b in f])
    sim.meta['nontrivial'] = n > 1


def jsonable(d):
    try:
        json.dumps(d)
        return True
    except Exception:
        return False


def hash_text(x):
    import hashlib
    return hashlib.md5(repr(x).encode('utf-8', 'surrogatepass')).hexdigest()[:12]


def by_file(sim, cls, obj, kind, want, view, stored, sure, out):
    """Saves to the simulated device, possibly under faults, and loads what is there."""
    name = f'{kind}{sim.draw("file", 2)}'
    DISK.short = [0, 0, 7, 100][sim.draw('short-writes', 4)]
    fault = ['none', 'none', 'io error', 'crash', 'full'][sim.draw('disk-fault', 5)]
    if fault in ('io error', 'crash'):
        DISK.arm(fault, sim.draw('at', 12))
    elif fault == 'full':
        DISK.arm(None, 0, quota=sim.draw('quota', 3000))
    try:
        before = len(DISK.sim.faults)
        obj.dump(DISK.root, name)
        reported = None
    except SimCrash:
        reported = 'crash'
    except OSError as e:
        reported = type(e).__name__
    hit = fault_happened(fault)
    DISK.disarm()
    if reported == 'crash' or DISK.dead:
        DISK.crash_recover()
        reported = 'crash'
    key = hash_text(want)
    sim.event('  saved', name, fault, '->', reported)
    out[f'save {reported or "done"}'] = out.get(f'save {reported or "done"}', 0) + 1
    if reported is None:
        if fault != 'none' and hit:
            raise Violation('persist/failure-hidden', f'{kind}: the device failed ({fault}) and the save reported success')
        stored[name] = {key}
        sure[name] = key
    else:
        stored.setdefault(name, set()).add(key)
        sure.pop(name, None)
    DISK.short = [0, 0, 5, 64][sim.draw('short-reads', 4)]
    rfault = sim.flag('read-error', 0.1)
    if rfault:
        DISK.arm('io error', sim.draw('at', 6))
    try:
        got = cls.loadf(DISK.root, name)
    except SimCrash:
        raise
    except Exception as e:
        hit = fault_happened('io error') if rfault else False
        DISK.disarm()
        sim.event('  load ->', type(e).__name__)
        if name in sure and not hit:
            raise Violation('persist/unreadable', f'{kind}: a completed save cannot be loaded: {type(e).__name__}: {str(e)[:200]}')
        out['load refused'] = out.get('load refused', 0) + 1
        return None
    hit = fault_happened('io error') if rfault else False
    DISK.disarm()
    if hit:
        raise Violation('persist/failure-hidden', f'{kind}: reading failed and the load reported success')
    now = hash_text(view(got))
    if now not in stored[name]:
        raise Violation('persist/silent-damage', f'{kind}: after {fault} -> {reported} the file loads as something never saved')
    if name in sure and now != key:
        raise Violation(f'persist/{kind}', f'{kind} saved to a file: {snapshot.diff(want, view(got), kind)}')
    return got if now == key else None


def fault_happened(kind):
    if kind == 'full':
        return DISK.quota is not None and DISK.quota <= 0 and DISK.full_hit
    return DISK.fault_at is not None and DISK.ops > DISK.fault_at[0]

"""Plain copies of what a client handed to the library, to compare before and after."""


def req(r):
    return (type(r).__name__,) + tuple(sorted((k, str(v)) for k, v in vars(r).items()))


def work_unit(w):
    return dict(id=w.id, model_name=dict(w.model_name), volume=w.volume, group=w.group, priority=w.priority,
                service=w.is_service_unit, name=w.display_name, description=getattr(w, 'description', None),
                workers=[req(r) for r in w.worker_reqs], zones=[req(r) for r in w.zone_reqs],
                materials=[req(r) for r in w.material_reqs], objects=[req(r) for r in w.object_reqs],
                equipments=[req(r) for r in w.equipment_reqs])


def graph(wg):
    return dict(start=wg.start.id, finish=wg.finish.id,
                nodes=[dict(unit=work_unit(n.work_unit),
                            parents=[(e.start.id, e.finish.id, e.lag, e.type.value) for e in n.edges_to],
                            children=sorted((e.start.id, e.finish.id, e.lag, e.type.value) for e in n.edges_from))
                       for n in wg.nodes])


def worker(w):
    return (w.id, w.name, w.count, w.contractor_id, float(w.cost_one_unit))


def contractors(cs):
    return [dict(id=c.id, name=c.name, workers=[(k, worker(w)) for k, w in c.workers.items()],
                 equipments=sorted(c.equipments)) for c in cs]


def spec(s):
    out = {}
    for wid, e in s._work2spec.items():
        row = (tuple(sorted(e.contractors)), tuple(sorted((k, int(n)) for k, n in e.assigned_workers.items())),
               None if e.assigned_time is None else int(e.assigned_time), bool(e.is_independent))
        if row != ((), (), None, False):
            out[wid] = row
    return out


def estimator(e):
    d = dict(use_idle=e._use_idle, mode=str(e._estimation_mode), productivity_mode=str(e._productivity_mode))
    for k, per in e._productivity.items():
        for c, i in per.items():
            d[k, c] = (i.mean, i.sigma)
    return d


def problem(pr):
    return dict(graph=graph(pr.wg), contractors=contractors(pr.contractors), spec=spec(pr.spec),
                estimator=estimator(pr.estimator))


def schedule(s):
    rows = []
    for w in s.works:
        rows.append((w.id, int(w.start_time), int(w.finish_time), w.contractor, w.contractor_id,
                     tuple(sorted(worker(x) for x in w.workers)), float(w.cost), w.display_name,
                     bool(w.is_service_unit), float(w.volume), w.priority))
    return rows


def diff(a, b, path=''):
    """First difference between two plain structures, or None."""
    if type(a) is not type(b):
        return f'{path}: {a!r} != {b!r}'
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f'{path}/{k}: only {"before" if k in a else "after"}'
            d = diff(a[k], b[k], f'{path}/{k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{path}: {len(a)} items != {len(b)} items'
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d:
                return d
        return None
    if a != b:
        return f'{path}: {a!r} != {b!r}'
    return None

"""Oracle for the statuses of zones: reads the plain-data world and what a schedule tells about zones."""
from dst.oracle import Findings


def transitions_of(schedules):
    """Changes of status told by the works of the given schedules, as plain rows."""
    out = []
    for s in schedules:
        for w in s.works:
            for t in list(w.zones_pre or []) + list(w.zones_post or []):
                out.append((t.name, int(t.start_time), int(t.end_time), int(t.from_status), int(t.to_status), w.id))
    return out


def order_changes(changes, status):
    """Puts changes of one zone in an order in which each begins with the status the previous one left.

    Changes that take no time at one moment may be listed in any order. None when there is no such order."""
    changes = sorted(changes, key=lambda c: (c[1], c[2]))
    i, out = 0, []
    while i < len(changes):
        j = i
        while j < len(changes) and changes[j][1:3] == changes[i][1:3]:
            j += 1
        group = changes[i:j]
        if len(group) > 1 and group[0][1] == group[0][2] and len(group) <= 7:
            found = _arrange(group, status, changes[j][3] if j < len(changes) else None)
            if found is None:
                return None, (status, group)
            group = found
        for c in group:
            if c[3] != status:
                return None, (status, c)
            status = c[4]
            out.append(c)
        i = j
    return out, None


def _arrange(group, status, then):
    if not group:
        return [] if then is None or then == status else None
    for k, c in enumerate(group):
        if c[3] == status:
            rest = _arrange(group[:k] + group[k + 1:], c[4], then)
            if rest is not None:
                return [c] + rest
    return None


def check_zones(world, rows, changes, finish_times=()):
    """rows: of all schedules planned on one timeline; finish_times: starts of the final works of finished projects."""
    out = Findings()
    z = world['zones']
    reqs = {w['id']: {k: s for k, s in w['zones']} for w in world['works']}
    for c in changes:
        if c[0] not in z['start']:
            out.add('zone/unknown', f'{c}')
    for name, start in sorted(z['start'].items()):
        mine = [c for c in changes if c[0] == name]
        ordered, bad = order_changes(mine, start)
        if ordered is None:
            out.add('zone/history', f'{name}: status is {bad[0]}, but the change is {bad[1]}; all changes {sorted(mine, key=lambda c: c[1])}')
            continue
        free, status = 0, start
        for c in ordered:
            cost = z['costs'][c[3]][c[4]]
            if c[2] - c[1] != cost:
                out.add('zone/change-time', f'{name}: {c} should take {cost}')
            if c[1] < free:
                out.add('zone/changes-overlap', f'{name}: {c} begins before {free}')
            free = c[2]
            status = c[4]
        for r in rows:
            req = reqs.get(r['id'], {}).get(name, 0)
            if req == 0 or r['start'] >= r['finish']:
                continue
            now = start
            for c in ordered:
                if c[2] <= r['start']:
                    now = c[4]
                elif c[1] < r['finish']:
                    out.add('zone/changed-under-work', f'{name}: {c} while {r} needs {req}')
            if now != req:
                out.add('zone/wrong-status', f'{name}: {r} needs {req}, status is {now}; changes {ordered}')
        if name in z['end'] and finish_times:
            if status != z['end'][name]:
                out.add('zone/end-status', f'{name} is left in {status}, should be {z["end"][name]}')
            if free > max(finish_times):
                out.add('zone/end-late', f'{name} changes until {free}, the project finishes at {max(finish_times)}')
    return out

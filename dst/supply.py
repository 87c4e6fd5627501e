"""Oracle for materials: reads the plain-data world and the deliveries a schedule tells about."""
import math

from dst.oracle import Findings

SPEED = 5      # of every road


def deliveries_of(world, schedule):
    """(platform, material, count, leaves, arrives, depot, work)"""
    where = {w: p['name'] for p in world['land']['platforms'] for w in p['works']}
    out = []
    for sw in schedule.works:
        if sw.materials is None:
            continue
        for name, rows in sw.materials.delivery.items():
            for count, leaves, arrives, depot in rows:
                out.append((where[sw.id], name, int(count), int(leaves), int(arrives), depot, sw.id))
    return out


def times(world):
    """The least time any route between two places takes."""
    land = world['land']
    names = [x['name'] for x in land['platforms'] + land['holders']]
    d = {(a, b): 0 if a == b else 10 ** 9 for a in names for b in names}
    for a, b, length, _ in land['roads']:
        t = math.ceil(length / SPEED)
        d[a, b] = d[b, a] = min(d[a, b], t)
    for k in names:
        for i in names:
            for j in names:
                d[i, j] = min(d[i, j], d[i, k] + d[k, j])
    return d


def route(world, a, b):
    """Roads of the only fastest way from a to b; None when there are several ways."""
    land = world['land']
    names = [x['name'] for x in land['platforms'] + land['holders']]
    links = {}
    for i, (u, v, length, _) in enumerate(land['roads']):
        links.setdefault(frozenset((u, v)), []).append((math.ceil(length / SPEED), i))
    if len(links) != len(names) - 1:
        return None

    def go(x, path, seen):
        if x == b:
            return path
        for pair, roads in sorted(links.items(), key=lambda p: p[1]):
            if x in pair:
                t, = pair - {x}
                roads = sorted(roads)
                if t not in seen and (len(roads) == 1 or roads[0][0] < roads[1][0]):
                    found = go(t, path + [roads[0][1]], seen | {t})
                    if found is not None:
                        return found
        return None
    return go(a, [], {a})


def levels_after(levels, changes, cap):
    """Stocks possible after the changes of one moment, done in any order, none of which leaves [0, cap]."""
    out, seen = set(), set()

    def go(level, rest):
        if (level, rest) in seen:
            return
        seen.add((level, rest))
        if not rest:
            out.add(level)
        for i in range(len(rest)):
            now = level + rest[i]
            if 0 <= now <= cap:
                go(now, rest[:i] + rest[i + 1:])
    for level in levels:
        go(level, tuple(sorted(changes)))
    return out


def over(events, limit):
    """events: (time, +-amount); releases come first."""
    used = 0
    for t, n in sorted(events):
        used += n
        if used > limit:
            return t, used
    return None


def check_supply(world, rows, told):
    out = Findings()
    land = world['land']
    d = times(world)
    by_id = {w['id']: w for w in world['works']}
    start = {r['id']: r['start'] for r in rows}
    depots = {h['name']: h for h in land['holders']}
    for t in told:
        platform, name, count, leaves, arrives, depot, work = t
        if depot not in depots or name not in depots[depot]['stock']:
            out.add('supply/unknown', f'{t}')
            return out
        if count <= 0:
            out.add('supply/nothing', f'{t}')
        if leaves < 0 or arrives < leaves:
            out.add('supply/time', f'{t}')
        elif arrives - leaves < d[depot, platform]:
            out.add('supply/too-fast', f'{t}: the shortest way takes {d[depot, platform]}')
        if arrives > start[work]:
            out.add('supply/late', f'{t}: the work starts at {start[work]}')
    for p in land['platforms']:
        for m, cap in sorted(p['cap'].items()):
            moments = {}
            for platform, name, count, leaves, arrives, depot, work in told:
                if platform == p['name'] and name == m:
                    moments.setdefault(arrives, []).append(count)
            for w in p['works']:
                for k, n in by_id[w]['materials']:
                    if k == m and w in start:
                        moments.setdefault(start[w], []).append(-n)
            levels = {cap}
            for t in sorted(moments):
                now = levels_after(levels, moments[t], cap)
                if not now:
                    level = min(levels) + sum(moments[t])
                    kind = 'short' if level < 0 else 'overfull' if level > cap else 'order'
                    out.add('supply/platform-' + kind, f'{p["name"]} {m}: {sorted(levels)} of {cap} at {t}, changes {moments[t]}; '
                                                       f'all {sorted(moments.items())}')
                    break
                levels = now
    road_use = {}
    for h in land['holders']:
        trips = {}
        for m, stock in sorted(h['stock'].items()):
            sent = sum(t[2] for t in told if t[5] == h['name'] and t[1] == m)
            if sent > stock:
                out.add('supply/stock', f'{h["name"]} sent {sent} of {stock} {m}')
        for platform, name, count, leaves, arrives, depot, work in told:
            if depot == h['name']:
                key = (work, platform, leaves, arrives)
                trips[key] = max(trips.get(key, 0), math.ceil(count / h['vehicle'][name]))
        events = []
        for (work, platform, leaves, arrives), n in trips.items():
            events += [(leaves, n), (arrives + d[platform, h['name']], -n)]
            way = route(world, h['name'], platform)
            if way is not None and arrives - leaves == d[h['name'], platform]:
                t = leaves
                for i in way:
                    took = math.ceil(land['roads'][i][2] / SPEED)
                    road_use.setdefault(i, []).extend([(t, n), (t + took, -n)])
                    t += took
        bad = over(events, h['fleet'])
        if bad:
            out.add('supply/fleet', f'{h["name"]} has {h["fleet"]} vehicles, {bad[1]} are out at {bad[0]}; trips {sorted(trips.items(), key=str)}')
    for i, events in road_use.items():
        bad = over(events, land['roads'][i][3])
        if bad:
            out.add('supply/road', f'{land["roads"][i]} carries {bad[1]} at {bad[0]}')
    return out

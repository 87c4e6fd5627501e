"""Independent feasibility oracle: reads the plain-data world and a schedule."""
import math
from fractions import Fraction


def sched_rows(schedule):
    """Plain rows of a Schedule, in the schedule's own order."""
    rows = []
    for w in schedule.works:
        rows.append(dict(id=w.id, start=int(w.start_time), finish=int(w.finish_time),
                         contractor=w.contractor_id,
                         workers=sorted((x.name, int(x.count), x.contractor_id) for x in w.workers),
                         cost=float(w.cost)))
    return rows


def canonical(schedule):
    """Comparable form of a schedule: what the user observes, not object identity."""
    return sorted((r['id'], r['start'], r['finish'], r['contractor'], tuple(r['workers'])) for r in sched_rows(schedule))


def productivity(world, kind, contractor):
    mean = 1.0
    per = None
    for k, c, m in world['productivity']:
        if k == kind and c is None:
            mean = m
        if k == kind and c == contractor:
            per = m
    return per if per is not None else mean


def expected_duration(world, work, contractor, team):
    """(lo, hi): admissible integer durations, tolerant to floating-point association; None = infeasible."""
    if not team:
        return 0, 0
    lo = hi = 0
    for r in work['reqs']:
        if r['min'] == 0:
            continue
        n = team.get(r['kind'], 0)
        if n < r['min']:
            return None
        m = r['max']
        coef = Fraction(-2 * n ** 3 + 3 * n ** 2 + (6 * m * m - 1) * n, 6 * m * m)
        prod = Fraction(productivity(world, r['kind'], contractor)) * n * coef
        if prod <= 0:
            return None
        q = Fraction(r['volume']) / prod
        eps = Fraction(1, 10 ** 9)
        lo = max(lo, math.ceil(q * (1 - eps)))
        hi = max(hi, math.ceil(q * (1 + eps)))
    return lo, hi


class Findings(list):
    def add(self, signature, message):
        self.append((signature, message))


ALL = ('complete', 'time', 'precedence', 'chain', 'team', 'contractor', 'capacity', 'duration', 'spec', 'cost', 'frame')


def check_schedule(world, wg, schedule, start_time=0, parts=ALL, use_spec=True, rows=None):
    """Returns a list of (signature, message)."""
    out = Findings()
    rows = rows if rows is not None else sched_rows(schedule)
    works = {w['id']: w for w in world['works']}
    start_id, finish_id = wg.start.id, wg.finish.id
    expected_ids = set(works) | {start_id, finish_id}
    by_id = {}
    if 'complete' in parts:
        for r in rows:
            if r['id'] in by_id:
                out.add('complete/duplicate', f'work {r["id"]} appears twice')
            by_id[r['id']] = r
        for i in sorted(expected_ids - set(by_id)):
            out.add('complete/missing', f'work {i} is not in the schedule')
        for i in sorted(set(by_id) - expected_ids):
            out.add('complete/unknown', f'unknown work {i}')
        if out:
            return out
    else:
        by_id = {r['id']: r for r in rows}

    head_of = {}
    for macro in world['macros']:
        for wid in macro:
            head_of[wid] = macro[0]

    if 'time' in parts:
        for r in rows:
            if r['start'] > r['finish']:
                out.add('time/negative', f'{r}')
            if r['start'] < start_time:
                out.add('time/early', f'{r} before project start {start_time}')
            if r['finish'] >= 2_000_000_000:
                out.add('time/infinite', f'{r}')

    if 'precedence' in parts:
        for w in world['works']:
            me = by_id[w['id']]
            for p, lag, t in w['edges']:
                if me['start'] < by_id[p]['finish'] + lag:
                    out.add(f'precedence/{t}', f'{w["id"]} starts {me["start"]}, predecessor {p} finishes '
                                               f'{by_id[p]["finish"]} + lag {lag} ({t})')
            if me['start'] < by_id[start_id]['finish']:
                out.add('precedence/project-start', f'{me}')
            if me['finish'] > by_id[finish_id]['start']:
                out.add('precedence/project-finish', f'{me} after {by_id[finish_id]}')

    if 'chain' in parts:
        for macro in world['macros']:
            for wid in macro[1:]:
                a, b = by_id[macro[0]], by_id[wid]
                if a['contractor'] != b['contractor'] or a['workers'] != b['workers']:
                    out.add('chain/team', f'{a} vs {b}')

    contr = {c['id']: {k: n for k, n, _ in c['workers']} for c in world['contractors']}
    cost_of = {c['id']: c['workers'] for c in world['contractors']}
    for w in world['works']:
        r = by_id[w['id']]
        team = {k: n for k, n, _ in r['workers']}
        if 'contractor' in parts:
            if r['contractor'] not in contr:
                out.add('contractor/unknown', f'{r}')
            for k, n, c in r['workers']:
                if c != r['contractor']:
                    out.add('contractor/foreign-workers', f'{r}')
        if 'team' in parts:
            reqs = {q['kind']: q for q in w['reqs']}
            if len(team) != len(r['workers']):
                out.add('team/duplicate-kind', f'{r}')
            for k, n in team.items():
                if k not in reqs and n > 0:
                    out.add('team/unrequested', f'{r}')
            fixed = world['spec'].get(w['id'], {}).get('team', {}) if use_spec else {}
            for k, q in reqs.items():
                n = team.get(k, 0)
                if k in fixed:
                    continue
                if n < q['min']:
                    out.add('team/below-min', f'{r} needs {q}')
                if n > q['max']:
                    out.add('team/above-max', f'{r} allows {q}')
        sp = world['spec'].get(w['id'], {}) if use_spec else {}
        if 'spec' in parts:
            if sp.get('contractors') and r['contractor'] not in sp['contractors']:
                out.add('spec/contractor', f'{r} allowed {sp["contractors"]}')
            for k, n in sp.get('team', {}).items():
                if team.get(k, 0) != n:
                    out.add('spec/team', f'{r} spec {sp["team"]}')
            if 'time' in sp and w['id'] == head_of[w['id']]:
                macro = next(m for m in world['macros'] if m[0] == w['id'])
                total = sum(by_id[x]['finish'] - by_id[x]['start'] for x in macro)
                if total != sp['time']:
                    out.add('spec/time', f'{r} spec {sp} works {macro} take {total}')
        if 'duration' in parts and 'time' not in sp:
            exp = expected_duration(world, w, r['contractor'], team)
            d = r['finish'] - r['start']
            if exp is None:
                out.add('duration/insufficient-team', f'{r}')
            elif not exp[0] <= d <= exp[1]:
                out.add('duration/mismatch', f'{r} expected {exp}')
        if 'spec' in parts and sp.get('independent'):
            mine = {(c, k) for k, n, c in r['workers'] if n}
            for o in rows:
                if head_of.get(o['id']) == head_of[w['id']] or o['start'] >= o['finish'] or r['start'] >= r['finish']:
                    continue
                if o['start'] < r['finish'] and r['start'] < o['finish'] and mine & {(c, k) for k, n, c in o['workers'] if n}:
                    out.add('spec/independent', f'{r} overlaps {o}')
        if 'cost' in parts:
            price = {k: (c if c is not None else 10) for k, _, c in cost_of.get(r['contractor'], [])}
            exp_cost = sum(price.get(k, 10) * n for k, n, _ in r['workers']) * (r['finish'] - r['start'])
            if abs(exp_cost - r['cost']) > 1e-6 * max(1, abs(exp_cost)):
                out.add('cost/mismatch', f'{r} expected {exp_cost}')
    for sid in (start_id, finish_id):
        r = by_id[sid]
        if 'duration' in parts and r['finish'] != r['start']:
            out.add('duration/service', f'{r}')

    if 'capacity' in parts:
        out.extend(check_capacity(contr, [rows]))

    if 'frame' in parts and schedule is not None:
        out.extend(check_frame(world, wg, schedule, rows))
    return out


def check_capacity(contr, rows_list):
    """At every instant each contractor's specialists in use do not exceed what it has."""
    out = Findings()
    events = {}
    for rows in rows_list:
        for r in rows:
            if r['start'] == r['finish']:
                continue
            for k, n, c in r['workers']:
                if n:
                    ev = events.setdefault((c, k), [])
                    ev.append((r['start'], 1, n, r['id']))
                    ev.append((r['finish'], 0, -n, r['id']))
    for (c, k), ev in sorted(events.items()):
        have = contr.get(c, {}).get(k, 0)
        used = 0
        for t, _, d, wid in sorted(ev):
            used += d
            if used > have:
                out.add('capacity/exceeded', f'{c}/{k}: {used} in use at {t} (work {wid}), has {have}')
                break
    return out


def check_frame(world, wg, schedule, rows):
    out = Findings()
    df = schedule.full_schedule_df
    pos = {}
    for i, (_, row) in enumerate(df.iterrows()):
        sw = row['scheduled_work_object']
        pos[row['task_id']] = i
        if row['task_id'] != sw.id or int(row['start']) != int(sw.start_time) or int(row['finish']) != int(sw.finish_time) \
                or int(row['duration']) != int(sw.finish_time) - int(sw.start_time):
            out.add('frame/row', f'{row["task_id"]}: frame {row["start"]}..{row["finish"]} vs work {sw}')
        if float(row['cost']) != float(sw.cost):
            out.add('frame/cost', f'{row["task_id"]}')
    if [r['start'] for r in rows] != sorted(r['start'] for r in rows):
        out.add('frame/order', 'rows are not in order of start time')
    for w in world['works']:
        for p, _, _ in w['edges']:
            if pos.get(p, -1) > pos.get(w['id'], -1):
                out.add('frame/topological', f'{p} listed after {w["id"]}')
    makespan = max(r['finish'] for r in rows)
    if int(schedule.execution_time) != makespan:
        out.add('frame/execution-time', f'execution_time {schedule.execution_time}, latest finish {makespan}')
    return out


def feasible_exists(world):
    """Whether for every work (chain) some admissible contractor can supply an admissible team on its own."""
    from dst.world import feasible_contractors
    for macro in world['macros']:
        sp = world['spec'].get(macro[0], {})
        ok = feasible_contractors(world, macro, sp.get('team'))
        if sp.get('contractors'):
            ok = [c for c in ok if c in sp['contractors']]
        if not ok:
            return False
    return True

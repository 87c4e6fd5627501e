"""P28: tables, sums and charts of a plan say what the plan says."""
import copy
import json
import os
import pickle
import zlib
from collections import Counter
from datetime import datetime, timedelta

from dst import ops, snapshot
from dst.choice import Violation
from dst.oracle import feasible_exists
from dst.props import register
from dst.props.feasibility import environment
from dst.props.persist import hash_text
from dst.props.pipeline import SEP, add_overlaps
from dst.props.service import small
from dst.props.sites import supply_profile, zone_profile
from dst.simdisk import DISK
from dst.world import Problem, draw_ids, gen_world


def warm():
    """Imports what draws; the list of fonts is made by one process at a time."""
    import fcntl
    import glob
    folder = os.environ['MPLCONFIGDIR']
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, 'one-at-a-time'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        if not glob.glob(os.path.join(folder, 'fontlist-*.json')):
            for stale in glob.glob(os.path.join(folder, '*.matplotlib-lock')):
                os.unlink(stale)
            import matplotlib.font_manager  # noqa
    import sampo.utilities.resource_usage  # noqa
    import sampo.utilities.visualization  # noqa
    import PIL.Image
    PIL.Image.init()


def want(cond, what, msg):
    if not cond:
        raise Violation('views/' + what, str(msg)[:1500])


def equal(a, b, what, where):
    if isinstance(a, Counter):
        less, more = a - b, b - a
        want(not less and not more, what, f'{where}: missing {list(less)[:3]}, not expected {list(more)[:3]}')
    else:
        d = snapshot.diff(a, b)
        want(not d, what, f'{where} (expected != shown): {d}')


def say(what, fn, *a, **kw):
    """What a reader is answered; nothing that is asked for here may fail."""
    try:
        return fn(*a, **kw)
    except (Violation, OSError):
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('views/crash', f'{what}: {type(e).__name__}: {str(e)[:200]} at {tb.filename.split("/")[-1]}:{tb.name}')


# ------------------------------------------------------------------ what the plan says
def capture(s):
    out = []
    for w in s.works:
        out.append(dict(id=w.id, name=w.display_name, model=dict(w.model_name), start=int(w.start_time), finish=int(w.finish_time),
                        contractor=w.contractor, cost=float(w.cost), volume=float(w.volume), service=bool(w.is_service_unit),
                        priority=w.priority, team=[(x.name, int(x.count), float(x.cost_one_unit)) for x in w.workers],
                        zones=[(z.name, int(z.start_time), int(z.end_time)) for z in list(w.zones_pre) + list(w.zones_post)],
                        delivery=[(k, int(d[0]), int(d[1]), int(d[2]), d[3]) for k, ds in (w.materials.delivery.items() if w.materials else ())
                                  for d in ds]))
    return out


def merged(rows):
    """One row per work of the client."""
    parts = {}
    for r in rows:
        parts.setdefault(r['id'].split(SEP)[0], []).append(r)
    out = []
    for wid, ps in parts.items():
        r = dict(ps[-1], id=wid, name=ps[0]['name'].split(SEP)[0], start=min(p['start'] for p in ps), finish=max(p['finish'] for p in ps),
                 cost=sum(p['cost'] for p in ps), volume=sum(p['volume'] for p in ps), parts=len(ps))
        if len(ps) > 1:
            r['model'] = dict(r['model'], granular_name=r['model']['granular_name'].split(SEP)[0])
        out.append(r)
    return out


def moment(offset, days=0):
    return (offset if isinstance(offset, datetime) else datetime.strptime(
        offset, '%Y-%m-%d' if len(offset) == 10 else '%y-%m-%d %H:%M:%S')) + timedelta(days=days)


OFFSETS = ['2024-01-01', '24-02-28 08:30:00', datetime(2023, 12, 31, 17, 45), datetime(2000, 2, 29)]


def team_text(r):
    return repr({k: n for k, n, _ in r['team']})


# ------------------------------------------------------------------ tables
def table_rows(df, dates):
    out = []
    for _, x in df.iterrows():
        out.append(dict(id=x['task_id'], name=x['task_name'], start=x['start'].to_pydatetime() if dates else int(x['start']),
                        finish=x['finish'].to_pydatetime() if dates else int(x['finish']), contractor=x['contractor'],
                        cost=round(float(x['cost']), 4), volume=round(float(x['volume']), 6), workers=x['workers'],
                        granular=x['granular_name'], measurement=x['measurement']))
    return sorted(out, key=lambda r: r['id'])


def table_told(rows, offset=None):
    return sorted((dict(id=r['id'], name=r['name'], start=r['start'] if offset is None else moment(offset, r['start']),
                        finish=r['finish'] if offset is None else moment(offset, r['finish']), contractor=r['contractor'],
                        cost=round(r['cost'], 4), volume=round(r['volume'], 6), workers=team_text(r),
                        granular=r['model']['granular_name'], measurement=r['model']['measurement']) for r in rows), key=lambda r: r['id'])


def spoil(sim, df):
    """What a client does to a table that is its own."""
    k = sim.draw('spoil', 6)
    if k == 1:
        df.drop(columns=['start', 'workers'], inplace=True)
    elif k == 2:
        df['start'] = df['finish'].iloc[0]
        df['workers'] = '{}'
    elif k == 3:
        df.drop(index=list(df.index)[:2], inplace=True)
    elif k == 4:
        df.sort_values('task_name', inplace=True, ascending=False)
        df.reset_index(drop=True, inplace=True)
    elif k == 5:
        df.loc[:, 'task_id'] = 'x'
    if k:
        sim.event('  spoiled', k)


def read_full(sim, s, rows, ctx):
    df = say('full_schedule_df', lambda: s.full_schedule_df)
    equal(table_told(rows), table_rows(df, False), 'full', ctx)
    want([int(x) for x in df['duration']] == [int(x) for x in df['finish'] - df['start']], 'full', f'{ctx}: durations')
    want(list(df['task_id']) == [w.id for w in s.works] == [r['id'] for r in rows], 'full', f'{ctx}: other order than of the works')
    want(int(s.execution_time) == max(r['finish'] for r in rows), 'full', f'{ctx}: execution time {s.execution_time}')


def read_pure(sim, s, rows, ctx):
    df = say('pure_schedule_df', lambda: s.pure_schedule_df)
    real = [r for r in rows if not r['service']]
    equal(table_told(real), table_rows(df, False), 'pure', ctx)
    want('scheduled_work_object' not in df.columns, 'pure', f'{ctx}: {list(df.columns)}')
    if sim.flag('spoil-pure', 0.4):
        spoil(sim, df)


def read_dict(sim, s, rows, ctx):
    d = say('to_schedule_work_dict', lambda: s.to_schedule_work_dict)
    equal({r['id']: (r['start'], r['finish']) for r in rows}, {k: (int(w.start_time), int(w.finish_time)) for k, w in d.items()}, 'dict', ctx)
    want(all(k == w.id for k, w in d.items()), 'dict', ctx)
    if sim.flag('spoil-dict', 0.4):
        d.clear()


def judge_merged(df, rows, offset, ctx):
    told = merged(rows)
    equal(table_told(told, offset), table_rows(df, True), 'merged', f'{ctx} {offset}')
    one = {r['id'] for r in told if r['parts'] == 1}
    days = {r['id']: r['finish'] - r['start'] for r in told}
    want(all(int(x['duration']) == days[x['task_id']] for _, x in df.iterrows() if x['task_id'] in one), 'merged', f'{ctx}: durations')
    order = [(x['start'], x['task_name']) for _, x in df.iterrows()]
    want(order == sorted(order), 'merged', f'{ctx}: not by start and name: {order}')
    want(list(df['idx']) == list(range(len(df))), 'merged', f'{ctx}: numbered {list(df["idx"])}')


def draw_offset(sim):
    return sim.pick('offset', OFFSETS)


def read_merged(sim, s, rows, ctx):
    offset = draw_offset(sim)
    df = say('merged_stages_datetime_df', s.merged_stages_datetime_df, offset)
    judge_merged(df, rows, offset, ctx)
    sim.event('  order', hash_text([list(df['task_id']), list(df.columns)]))
    if sim.flag('spoil-merged', 0.5):
        spoil(sim, df)


def read_shifted(sim, s, rows, ctx):
    from sampo.utilities.schedule import fix_split_tasks, offset_schedule
    offset = draw_offset(sim)
    df = say('offset_schedule', offset_schedule, s.full_schedule_df, offset)
    equal(table_told(rows, offset), table_rows(df, True), 'shifted', f'{ctx} {offset}')
    if sim.flag('then-merge', 0.5):
        keep = df.copy()
        m = say('fix_split_tasks', fix_split_tasks, df)
        judge_merged(m, rows, offset, ctx + ' by hand')
        want(keep.equals(df), 'shifted', f'{ctx}: merging changed the table that was given')
        spoil(sim, m)
    spoil(sim, df)


def read_united(sim, s, rows, ctx):
    u = say('unite_stages', s.unite_stages)
    got = capture(u)
    told = merged(rows)
    plain = lambda rs: sorted([r['id'], r['name'], r['start'], r['finish'], r['contractor'], round(r['cost'], 4), round(r['volume'], 6),
                               r['service'], r['priority'], r['team'], sorted(r['model'].items())] for r in rs)
    equal(plain(told), plain(got), 'united', ctx)
    again = say('unite_stages twice', u.unite_stages)
    equal(plain(got), plain(capture(again)), 'united', ctx + ' twice')
    if sim.flag('spoil-united', 0.4):
        for w in u.works:
            w.shift(7) if hasattr(w, 'shift') else None
            w.model_name['granular_name'] = 'gone'
            w.workers.clear()


# ------------------------------------------------------------------ sums
def read_usage(sim, s, rows, ctx):
    from sampo.utilities import resource_usage as ru
    names = sorted({k for r in rows for k, _, _ in r['team']})
    how = sim.draw('filter', 5)
    chosen = names if how == 0 else names[:1] if how < 3 else names[1:] + ['nobody'] if how == 3 else []

    def arg():
        return None if how == 0 else iter(chosen) if how == 1 else list(chosen) if how == 2 else set(chosen)

    points = sorted({t for r in rows for t in (r['start'], r['finish'])})
    use = {k: [sum(n for r in rows if r['start'] <= t < r['finish'] for x, n, _ in r['team'] if x == k) for t in points]
           for k in chosen if k in names}
    got = say('get_total_resources_usage', ru.get_total_resources_usage, s, arg())
    equal({k: v for k, v in use.items() if any(v)}, {k: [int(x) for x in v] for k, v in got.items() if any(v)}, 'usage', f'{ctx} {chosen}')
    for v in got.values():
        v[:] = 0
    peaks = {k: max(v) for k, v in use.items() if max(v)}
    got = say('get_resources_peak_usage', ru.get_resources_peak_usage, s, arg())
    equal(peaks, {k: int(v) for k, v in got.items() if v}, 'peaks', f'{ctx} {chosen}')
    want(int(say('resources_peaks_sum', ru.resources_peaks_sum, s, arg())) == sum(peaks.values()), 'peaks', f'{ctx} {chosen}')
    total = sum(n * (r['finish'] - r['start']) for r in rows for k, n, _ in r['team'] if k in chosen)
    got = say('resources_sum', ru.resources_sum, s, arg())
    want(int(got) == total, 'sum', f'{ctx} {chosen}: {got}, the plan says {total}')
    cost = sum(n * c * (r['finish'] - r['start']) for r in rows for k, n, c in r['team'] if k in chosen)
    got = say('resources_costs_sum', ru.resources_costs_sum, s, arg())
    want(abs(float(got) - cost) <= 1e-6 * max(1, cost), 'costs', f'{ctx} {chosen}: {got}, the plan says {cost}')


# ------------------------------------------------------------------ charts of employment
def bars_of(fig):
    out = []
    for t in fig.data:
        for i in range(len(t.x)):
            out.append((t, i, as_datetime(t.base[i]), timedelta(milliseconds=float(t.x[i])), t.y[i]))
    return out


def as_datetime(x):
    import pandas
    return pandas.Timestamp(x).to_pydatetime()


def by_days(rows, day_of):
    out = Counter()
    for r in rows:
        for k, n, _ in r['team']:
            if n:
                for d in range(day_of(r['start']), day_of(r['finish']) + 1):
                    out[k, d] += n
    return out


def judge_days(fig, told, origin, ctx):
    got = {}
    for t, i, base, width, y in bars_of(fig):
        want(width == timedelta(days=1) and (y, base) not in got, 'chart-days', f'{ctx}: {y} at {base} for {width}')
        got[y, base] = int(t.marker.color[i])
    equal({(k, origin + timedelta(days=d)): n for (k, d), n in told.items()}, got, 'chart-days', ctx)


def judge_works(fig, rows, origin, ctx):
    cells = {}
    for t, i, base, width, y in bars_of(fig):
        want(width == timedelta(days=1), 'chart-works', f'{ctx}: {base} {width}')
        cells.setdefault(base, []).append((y, int(t.marker.color[i])))
    ticks = dict(zip(map(as_datetime, fig.layout.xaxis.tickvals or ()), fig.layout.xaxis.ticktext or ()))
    want(sorted(ticks) == sorted(cells), 'chart-works', f'{ctx}: names at {sorted(ticks)}, works at {sorted(cells)}')
    got = [(ticks[b], sorted(cells[b])) for b in sorted(cells)]
    told = [(r['start'], r['name'], sorted((k, n) for k, n, _ in r['team'] if n)) for r in rows if any(n for _, n, _ in r['team'])]
    equal(Counter((n, tuple(t)) for _, n, t in told), Counter((n, tuple(t)) for n, t in got), 'chart-works', ctx)
    want(min(cells, default=origin) >= origin, 'chart-works', f'{ctx}: before {origin}')
    # works are shown in the order of their start
    starts = {}
    for t, n, team in told:
        starts.setdefault((n, tuple(team)), []).append(t)
    shown = [sorted(starts[n, tuple(t)]) for n, t in got]
    last = 0
    for options in shown:
        later = [t for t in options if t >= last]
        want(later, 'chart-works', f'{ctx}: not in the order of start: {got}')
        last = later[0]


def judge_intervals(fig, rows, grouped, ctx):
    ax = fig.axes[0]
    labels = [t.get_text() for t in ax.get_yticklabels()]
    got = {}
    for p in ax.patches:
        label = labels[int(p.get_y() + p.get_height() / 2 + 0.25)]
        a = int(p.get_x())
        for t in range(a, a + int(p.get_width())):
            want((label, t) not in got, 'chart-intervals', f'{ctx}: {label} twice at {t}')
            got[label, t] = 1
    told = {}
    for r in rows:
        for t in range(r['start'], r['finish']):
            for k, n, _ in r['team']:
                told[k, t] = told.get((k, t), 0) + n
    told = ({(k, t): 1 for (k, t), n in told.items() if n} if grouped
            else {(f'{k}#{i}', t): 1 for (k, t), n in told.items() for i in range(n)})
    equal(Counter(told), Counter(got), 'chart-intervals', ctx)


def png_complete(path):
    with open(path, 'rb') as f:
        data = f.read()
    if data[:8] != b'\x89PNG\r\n\x1a\n':
        return False
    i = 8
    while i + 12 <= len(data):
        n = int.from_bytes(data[i:i + 4], 'big')
        body = data[i + 4:i + 8 + n]
        if len(body) < n + 4 or zlib.crc32(body) != int.from_bytes(data[i + 8 + n:i + 12 + n], 'big'):
            return False
        if body[:4] == b'IEND':
            return True
        i += 12 + n
    return False


def saved(sim, draw, ctx):
    """draw(mode, file name) -> figure; saves it on the simulated device."""
    from sampo.utilities.visualization.base import VisualizationMode as V
    if DISK.root is None:
        DISK.attach(sim)
    path = os.path.join(DISK.root, f'fig{sim.draw("file", 2)}.png')
    DISK.short = [0, 300][sim.draw('short-writes', 2)]
    fault = ['none', 'io error', 'full'][sim.draw('disk-fault', 3)]
    DISK.arm(None, 0)
    if fault == 'io error':
        DISK.arm(fault, sim.draw('at', 30))
    elif fault == 'full':
        DISK.arm(None, 0, quota=sim.draw('quota', 20000))
    error = fig = None
    try:
        fig = say(ctx, draw, V.SaveFig | V.ReturnFig, path)
    except OSError as e:
        error = type(e).__name__
    hit = DISK.full_hit or fault == 'io error' and DISK.ops > DISK.fault_at[0]
    DISK.disarm()
    DISK.short = 0
    sim.event('  saved', fault, error)
    if error is not None:
        want(hit, 'save', f'{ctx}: {error} from a healthy device')
        return None
    want(not hit, 'save', f'{ctx}: the device failed ({fault}) and saving reported success')
    want(png_complete(path), 'save', f'{ctx}: a saved figure is not complete')
    want(fig is not None, 'save', f'{ctx}: the figure was asked for, too')
    return fig


def read_employment(sim, s, rows, ctx):
    from matplotlib import pyplot as plt
    from sampo.utilities.visualization.base import VisualizationMode as V
    from sampo.utilities.visualization.resources import EmploymentFigType as T, resource_employment_fig
    kind = sim.pick('chart', ['DateLabeled', 'WorkLabeled', 'Classic', 'Grouped'])
    ctx = f'{ctx} {kind}'
    if not any(n for r in rows for _, n, _ in r['team']):
        return
    if kind in ('Classic', 'Grouped'):
        if sim.flag('to-file', 0.4):
            fig = saved(sim, lambda mode, path: resource_employment_fig(s, T[kind], mode, path), ctx)
        else:
            fig = say(ctx, resource_employment_fig, s, T[kind], V.ReturnFig)
        if fig is not None:
            judge_intervals(fig, rows, kind == 'Grouped', ctx)
        plt.close('all')
        return
    if sim.flag('of-table', 0.5):
        offset = draw_offset(sim)
        df = say('merged', s.merged_stages_datetime_df, offset)
        if sim.flag('as-dict', 0.2):
            df['workers_dict'] = df['workers'].apply(lambda x: eval(x))
        keep = df.copy()
        told = merged(rows)
        first = moment(offset, min(r['start'] for r in rows))
        first = datetime(first.year, first.month, first.day)
        seen = []
        conv = None
        if kind == 'DateLabeled' and sim.flag('converter', 0.4):
            def conv(d):
                seen.append({k: [int(x) for x in v] for k, v in d.items()})
                return {'everyone': sum(d.values())}
        fig = say(ctx, resource_employment_fig, df, T[kind], V.ReturnFig, converter=conv)
        want(keep.equals(df), 'chart-changes', f'{ctx}: the chart changed the table that was given')
        if kind == 'DateLabeled':
            days = by_days(told, lambda t: (moment(offset, t) - first).days)
            if conv:
                want(len(seen) == 1, 'chart-days', f'{ctx}: converter called {len(seen)} times')
                equal(days, Counter({(k, i): n for k, v in seen[0].items() for i, n in enumerate(v) if n}), 'chart-days', ctx + ' converter')
                total = Counter()
                for (k, d), n in days.items():
                    total['everyone', d] += n
                days = days + total
            judge_days(fig, days, first, ctx + ' of table')
        else:
            judge_works(fig, told, first, ctx + ' of table')
    else:
        kw = {}
        origin = datetime(2020, 1, 1)
        if sim.flag('own-start', 0.5):
            kw['project_start'] = origin = datetime(2031, 5, 7, 6, 30)
        fig = say(ctx, resource_employment_fig, s, T[kind], V.ReturnFig, **kw)
        if kind == 'DateLabeled':
            judge_days(fig, by_days(rows, int), origin, ctx)
        else:
            judge_works(fig, rows, origin, ctx)


# ------------------------------------------------------------------ gantt charts
def judge_gantt(fig, rows, df, offset, color, critical, removed, ctx):
    """df: the table that was drawn, judged elsewhere; it numbers the works."""
    line = {x['task_id']: int(x['idx']) for _, x in df.iterrows()}
    told = merged(rows)
    if removed:
        told = [r for r in told if 'марке' not in r['name'] and r['volume'] >= 0.1]
    by_name = {}
    for r in sorted(told, key=lambda r: line[r['id']]):
        by_name.setdefault(r['name'], line[r['id']])
    works, extra = Counter(), Counter()
    for r in told:
        label = ('Defect' if ':' in r['name'] else r['contractor']) if color == 'contractor' else \
            f'Priority {r["priority"]}' if color == 'priority' else \
            ('Critical path' if r['id'] in critical else 'Not critical path') if color == 'critical_path' else ''
        y = by_name.get(r['name'].split('&')[0], line[r['id']]) if ':' in r['name'] else line[r['id']]
        works[r['id'], r['name'], moment(offset, r['start']), moment(offset, r['finish']), str(label), y] += 1
        for name, a, b in r['zones']:
            extra['zone', moment(offset, a), moment(offset, b), line[r['id']]] += 1
        for name, n, a, b, _ in r['delivery']:
            extra[name, moment(offset, a), moment(offset, b), line[r['id']]] += 1
    by_id = {r['id']: r for r in told}
    zones = {name for r in told for name, _, _ in r['zones']}
    materials = {name for r in told for name, *_ in r['delivery']}
    got, more = Counter(), Counter()
    for t, i, base, width, y in bars_of(fig):
        c = t.customdata[i]
        if str(c[0]) == 'None':
            name = str(c[1]).replace('<br>', '')
            want(name in materials or any(z in name for z in zones), 'gantt-extra', f'{ctx}: {name} is neither a zone nor a material')
            more[name if name in materials else 'zone', base, base + width, int(y)] += 1
            continue
        got[str(c[0]), t.hovertext[i], base, base + width, '' if color == 'none' else str(t.name), int(y)] += 1
        want(t.text[i] == t.hovertext[i], 'gantt', f'{ctx}: {t.text[i]} on {t.hovertext[i]}')
        r = by_id.get(str(c[0]))
        if r is not None:
            want(abs(float(c[2]) - r['cost']) <= 1e-3 * max(1, r['cost']) and abs(float(c[3]) - r['volume']) <= 1e-6 * max(1, r['volume'])
                 and str(c[4]) == str(r['model']['measurement']) and str(c[5]).replace('<br>', '') == team_text(r),
                 'gantt', f'{ctx}: {list(c)} for {r}')
    equal(works, got, 'gantt', ctx)
    equal(extra, more, 'gantt-extra', ctx)


def read_gantt(sim, s, rows, ctx, critical):
    from sampo.utilities.visualization.base import VisualizationMode as V
    from sampo.utilities.visualization.schedule import schedule_gant_chart_fig
    offset = draw_offset(sim)
    df = say('merged', s.merged_stages_datetime_df, offset)
    keep = df.copy()
    colors = ['contractor', 'priority', 'none'] + (['critical_path'] if critical is not None else [])
    color = sim.pick('color', colors)
    removed = sim.flag('remove-service', 0.25)
    if removed and not [r for r in merged(rows) if 'марке' not in r['name'] and r['volume'] >= 0.1]:
        return
    ctx = f'{ctx} gantt {color} {"removed" if removed else ""} {offset}'
    fig = say(ctx, schedule_gant_chart_fig, df, V.ReturnFig, critical_path=critical, remove_service_tasks=removed, color_type=color)
    judge_gantt(fig, rows, keep, offset, color, {n.id for n in critical or ()}, removed, ctx)
    want(keep.equals(df), 'chart-changes', f'{ctx}: the chart changed the table that was given')


# ------------------------------------------------------------------ charts of work graphs
def judge_graph(fig, wg, deep, hidden, dotted, black, only, ctx):
    from matplotlib.patches import FancyArrow, Rectangle
    ax = fig.axes[0]
    nodes = {n.id: n for n in wg.nodes}
    depth = {wg.start.id: 0}
    todo = [wg.start.id]
    for x in todo:
        for e in nodes[x].edges_from:
            if e.type.value in ('FS', 'IFS', 'FFS') and e.finish.id not in depth:
                depth[e.finish.id] = depth[x] + 1
                todo.append(e.finish.id)
    shown = {x for x, d in depth.items() if deep is None or d < deep}
    boxes = {}
    spots = {(round(t.get_position()[0] - 0.01, 6), round(t.get_position()[1] - 0.05, 6)): t.get_text() for t in ax.texts}
    for p in ax.patches:
        if isinstance(p, Rectangle):
            at = (round(p.get_x(), 6), round(p.get_y(), 6))
            want(at in spots, 'work-graph', f'{ctx}: a box without a name')
            want(spots[at] not in boxes, 'work-graph', f'{ctx}: {spots[at]} is drawn twice or over another work')
            boxes[spots[at]] = (p.get_x(), p.get_y(), p.get_width(), p.get_height())
    want(set(boxes) == shown - hidden, 'work-graph', f'{ctx}: works {sorted(set(boxes) ^ (shown - hidden))} are or are not drawn')
    told = Counter()
    for x in shown - hidden:
        for e in nodes[x].edges_from:
            y = e.finish.id
            if e.type.value in ('FS', 'IFS', 'FFS') and y in shown - hidden and (x, y) not in black and not ((x, y) in dotted and only):
                told[x, y] += 1
                want(boxes[x][0] + boxes[x][2] <= boxes[y][0] + 1e-6, 'work-graph', f'{ctx}: {y} is not drawn after {x}')
    out_of = {(round(x + w, 4), round(y + h / 2, 4)): k for k, (x, y, w, h) in boxes.items()}
    into = {(round(x - 0.1, 4), round(y + h / 2, 4)): k for k, (x, y, w, h) in boxes.items()}
    got = Counter()
    for line in ax.lines:
        xs, ys = line.get_xdata(), line.get_ydata()
        a = out_of.get((round(float(xs[0]), 4), round(float(ys[0]), 4)))
        b = into.get((round(float(xs[-1]), 4), round(float(ys[-1]), 4)))
        got[a, b] += 1
        want((line.get_linestyle() == ':') == ((a, b) in dotted), 'work-graph', f'{ctx}: {a} -> {b} is {line.get_linestyle()}')
    equal(told, got, 'work-graph', ctx)
    want(sum(isinstance(p, FancyArrow) for p in ax.patches) == sum(told.values()), 'work-graph', f'{ctx}: arrows')
    groups = {str(nodes[x].work_unit.group) for x in shown}
    want({t.get_text() for t in ax.get_legend().get_texts()} == groups, 'work-graph', f'{ctx}: legend')


def read_graph(sim, wg, ctx):
    from matplotlib import pyplot as plt
    from sampo.utilities.visualization.base import visualize
    from sampo.utilities.visualization.work_graph import work_graph_fig
    ids = [n.id for n in wg.nodes]
    deep = 1 + sim.draw('deep', 6) if sim.flag('deep-on', 0.4) else None
    edges = sorted((e.start.id, n.id) for n in wg.nodes for e in n.edges_to)

    def some(label, xs):
        return {x for x in xs if sim.flag(label, 0.3)} if sim.flag(label + '-on', 0.3) else set()

    hidden, dotted, black = some('hide', ids), some('dot', edges), some('black', edges)
    only = sim.flag('only-not-dotted', 0.2)
    shape = (3, 3)

    def draw():
        return work_graph_fig(wg, shape, fig_dpi=40, max_deep=deep, show_names=True, hide_node_ids=sorted(hidden) if hidden else None,
                              show_only_not_dotted=only, dotted_edges=dotted or None, black_list_edges=black or None,
                              jobs2text_function=lambda row: row.work_id)

    if sim.flag('graph-to-file', 0.3):
        fig = saved(sim, lambda mode, path: visualize(draw(), mode, path), ctx + ' work graph')
    else:
        fig = say(ctx + ' work graph', draw)
    if fig is not None:
        judge_graph(fig, wg, deep, hidden, dotted, black, only, f'{ctx} work graph deep={deep}')
    plt.close('all')


# ------------------------------------------------------------------ all together
def read_all(sim, project, rows_of, ctx):
    from matplotlib import pyplot as plt
    from sampo.utilities.visualization import Visualization
    offset = draw_offset(sim)
    v = say('Visualization.from_project', Visualization.from_project, project, offset)
    color = sim.pick('vis-color', ['contractor', 'priority', 'critical_path', None])
    if color:
        v.color_type(color)
    if not any(n for r in rows_of['united'] for _, n, _ in r['team']):
        return
    figs = say(ctx + ' get_all_figs', v.get_all_figs)
    told = merged(rows_of['united'])
    first = moment(offset, min(r['start'] for r in told))
    first = datetime(first.year, first.month, first.day)
    judge_days(figs['date_labeled_resource_chart'], by_days(told, lambda t: (moment(offset, t) - first).days), first, ctx + ' all figures')
    judge_works(figs['work_labeled_resource_chart'], told, first, ctx + ' all figures')
    df = project.schedule.merged_stages_datetime_df(offset)
    judge_merged(df, rows_of['united'], offset, ctx + ' all figures')
    judge_gantt(figs['gant_chart'], rows_of['united'], df, offset, color or 'contractor', {n.id for n in project.critical_path()}, False,
                ctx + ' all figures')
    from matplotlib.patches import Rectangle
    n = sum(isinstance(p, Rectangle) for p in figs['wg'].axes[0].patches)
    want(n == len(project.wg.nodes), 'work-graph', f'{ctx} all figures: {n} works of {len(project.wg.nodes)}')
    plt.close('all')


NAMES = ['Отсыпка насыпи', 'Сборка по марке 5', 'survey: geology', 'a & b', 'a&1: again', 'a', 'x `site 1` y', "it's", 'dig, "then" fill']


def dress(sim, world):
    for w in world['works']:
        if sim.flag('dressed', 0.5):
            w['name'] = sim.pick('name', NAMES)
        if sim.flag('little', 0.2) and not w['edges']:
            w['volume'] = 0.05


@register('P28')
def p28(sim):
    environment(sim)
    kind = sim.pick('kind', ['plain', 'lags', 'lags', 'zones', 'materials'])
    world = gen_world(sim, zone_profile(sim) if kind == 'zones' else supply_profile(sim) if kind == 'materials' else small(sim, infeasible=False))
    draw_ids(sim, world)
    if kind == 'lags':
        add_overlaps(sim, world)
    if sim.flag('dress', 0.5):
        dress(sim, world)
    cfg = ops.draw_heuristic(sim)
    start = sim.weighted('start', 20, 0.6)
    sim.event('world', kind, len(world['works']), ops.describe(cfg), start)
    pr = Problem(world, ops.sim_estimator(world))
    project = make_project(sim, kind, world, pr, cfg, start)
    if project is None:
        return
    plans = {'united': project.schedule, 'raw': project.raw_schedule}
    rows_of = {k: capture(s) for k, s in plans.items()}
    columns = list(project.schedule.full_schedule_df.columns)
    sim.state((kind, len(rows_of['raw']), len(rows_of['united']), int(project.schedule.execution_time)))
    critical = say('critical_path', project.critical_path)
    graph = snapshot.graph(pr.wg)
    reads = 3 + sim.draw('reads', 5)
    for k in range(reads):
        what = sim.pick('read', ['full', 'pure', 'dict', 'merged', 'shifted', 'united', 'usage', 'usage', 'employment', 'employment',
                                 'gantt', 'gantt', 'graph', 'all', 'copy', 'plan'])
        which = sim.pick('which', sorted(plans))
        s, rows = plans[which], rows_of[which]
        ctx = f'{kind} {ops.describe(cfg)} start={start} {which}'
        sim.event('read', what, which)
        out = sim.meta.setdefault('outcome', {})
        out[what] = out.get(what, 0) + 1
        if what == 'copy':
            how = sim.pick('copy-how', ['pickle', 'deepcopy', 'json'])
            c = (pickle.loads(pickle.dumps(s)) if how == 'pickle' else copy.deepcopy(s) if how == 'deepcopy' else
                 type(s)._deserialize(json.loads(json.dumps(s._serialize()))))
            name = f'copy of {which}' if 'copy' not in which else which
            plans[name], rows_of[name] = c, [dict(r, delivery=[]) for r in rows] if how == 'json' else rows
            sim.event('  ', how)
        elif what == 'plan':
            try:
                make_project(sim, kind, world, pr, ops.draw_heuristic(sim), start)
            except Violation as v:
                sim.event('  another plan', v.signature)
        elif what == 'all':
            read_all(sim, project, rows_of, ctx)
        elif what == 'graph':
            read_graph(sim, project.wg if sim.flag('own-graph', 0.7) else project.raw_wg, ctx)
        elif what == 'gantt':
            read_gantt(sim, s, rows, ctx, critical if sim.flag('with-critical', 0.5) else None)
        else:
            dict(full=read_full, pure=read_pure, dict=read_dict, merged=read_merged, shifted=read_shifted, united=read_united,
                 usage=read_usage, employment=read_employment)[what](sim, s, rows, ctx)
        for name, p in plans.items():
            want(list(p.full_schedule_df.columns) == columns, 'plan-changed', f'{ctx}: after {what} the columns of {name} are {list(p.full_schedule_df.columns)}')
            now = capture(p)
            if 'copy' in name:
                now = [dict(r, delivery=[]) for r in now]
            equal([dict(r, delivery=[]) for r in rows_of[name]] if 'copy' in name else rows_of[name], now, 'plan-changed',
                  f'{ctx}: after {what}, {name} is another plan')
        want(not snapshot.diff(graph, snapshot.graph(pr.wg)), 'graph-changed', f'{ctx}: after {what}')
    want([n.id for n in project.critical_path()] == [n.id for n in critical], 'critical', f'{kind}: the critical path is another one now')
    sim.meta['nontrivial'] = len(world['works']) > 1


def make_project(sim, kind, world, pr, cfg, start):
    from sampo.pipeline import SchedulingPipeline
    from sampo.pipeline.lag_optimization import LagOptimizationStrategy
    from sampo.schemas.time import Time
    p = SchedulingPipeline.create().wg(pr.wg).work_estimator(pr.estimator).time_shift(Time(start)).contractors(pr.contractors)
    if pr.landscape is not None:
        p = p.landscape(pr.landscape)
    if world['spec']:
        p = p.spec(pr.spec)
    if kind == 'lags':
        p = p.lag_optimize(LagOptimizationStrategy.TRUE)
    try:
        return p.schedule(ops.make_scheduler(cfg, pr.estimator)).finish()[0]
    except Exception as e:
        sim.event('  no plan', type(e).__name__, str(e)[:100])
        if feasible_exists(world) and kind != 'materials':
            raise Violation('views/no-plan', f'{kind} {ops.describe(cfg)}: {type(e).__name__}: {e}')
        return None

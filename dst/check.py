"""python -m dst.check <property> [--tier T] [--seed N] [--replay FILE]: decides one property by seeded simulation."""
import argparse
import hashlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('DST_REPO', '/repo')
KNOWN = os.path.join(HERE, 'known_findings.txt')
REPLAYS = os.path.join(HERE, 'replays')
RUN_TIMEOUT = 40
STEP_LIMIT = 6_000_000
HASH_SEEDS = [1, 2, 3, 4]


class ZygoteError(Exception):
    pass


class Zygote:
    def __init__(self, hash_seed, pid=''):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('PYTHON'):
                del env[k]
        env.update(PYTHONHASHSEED=str(hash_seed), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                   PYTHONPATH=HERE, DST_REPO=REPO, MPLCONFIGDIR='/tmp/dst-mpl', PYTHONIOENCODING='utf-8', DST_PROP=pid)
        self.hash_seed = hash_seed
        self.p = subprocess.Popen([PY, '-m', 'dst.zygote'], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('DST_DEBUG') else subprocess.DEVNULL,
                                  text=True, start_new_session=True)
        line = self.p.stdout.readline()
        if not line:
            raise ZygoteError('the simulator process did not start')
        r = json.loads(line)
        if not r['ready']:
            raise ZygoteError(r['error'])

    def run(self, job):
        self.p.stdin.write(json.dumps(job) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise ZygoteError('the simulator process died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Pair:
    """Two processes with different hash seeds: the same choices must give the same execution in both."""

    def __init__(self, hash_seed, pid):
        self.hash_seed = hash_seed
        self.a = Zygote(hash_seed, pid)
        self.b = Zygote(hash_seed + 100, pid)

    def run(self, job):
        job = dict(job, want_log=True)
        r = self.a.run(job)
        if r['status'] != 'ok':
            return r
        job.pop('seed', None)
        r2 = self.b.run(dict(job, choices=r['choices']))
        if r2['status'] != 'ok':
            return r2
        if r2['digest'] != r['digest']:
            x, y = r['log'], r2['log']
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            p = x[i] if i < len(x) else ''
            q = y[i] if i < len(y) else ''
            j = next((j for j, (c, d) in enumerate(zip(p, q)) if c != d), min(len(p), len(q)))
            r.update(status='violation', signature='reproducible/hash-seed',
                     message=f'the same seeded request gives another result in a process with another hash seed: '
                             f'...{p[max(0, j - 80):j + 120]} / ...{q[max(0, j - 80):j + 120]}')
        r['digest'] = hashlib.sha256((r['digest'] + r2['digest']).encode()).hexdigest()[:24]
        return r

    def close(self):
        self.a.close()
        self.b.close()


def make_zygote(pid, hash_seed):
    from dst.registry import META
    return (Pair if META[pid].get('pair') else Zygote)(hash_seed, pid)


def run_resolving_timeout(z, job):
    """A run that exceeds the wall limit is repeated under a deterministic step bound."""
    r = z.run(dict(job, timeout=job.get('timeout', RUN_TIMEOUT)))
    if r['status'] == 'timeout':
        r2 = z.run(dict(job, steps=STEP_LIMIT, timeout=300))
        r2['steps'] = STEP_LIMIT
        return r2
    return r


def known_findings(pid):
    """Lines 'finding: property=<id> signature=<sig> match=<substring> :: <what fails>'."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: ') and f'property={pid} ' in line:
                head, _, what = line.partition(' :: ')
                f = dict(x.split('=', 1) for x in head[len('finding: '):].split(' ') if '=' in x)
                f['what'] = what
                out.append(f)
    return out


def match_known(known, r):
    for k in known:
        if r['signature'] == k['signature'] and k.get('match', '') in r['message']:
            return k
    return None


def minimise(z, job, choices, signature, deadline, accept=None):
    """Shortest choice sequence found that still shows the same violation."""
    tried = 0
    best = list(choices)
    cache = set()

    def attempt(c):
        nonlocal tried
        key = hashlib.md5(json.dumps(c).encode()).hexdigest()
        if key in cache or time.monotonic() > deadline:
            return None
        cache.add(key)
        tried += 1
        j = dict(job, choices=c, timeout=RUN_TIMEOUT)
        j.pop('seed', None)
        r = z.run(j)
        if r['status'] == 'violation' and r['signature'] == signature:
            return r
        return None

    def strip(c):
        c = list(c)
        while c and c[-1] == 0:
            c.pop()
        return c

    r = attempt(best)
    if r is None:
        return best, tried, False
    best = strip(r['choices'])
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.monotonic() < deadline:
            i = 0
            while i < len(best) and time.monotonic() < deadline:
                cand = best[:i] + best[i + size:]
                r = attempt(cand)
                if r is None and any(best[i:i + size]):
                    cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    r = attempt(strip(cand))
                if r is not None:
                    new = strip(r['choices'])
                    if len(new) < len(best) or (len(new) == len(best) and sum(new) < sum(best)):
                        best = new
                        improved = True
                        continue
                i += size
            size //= 2
        for i, v in enumerate(list(best)):
            if i >= len(best) or time.monotonic() > deadline:
                break
            for smaller in {v // 2, v - 1}:
                if 0 <= smaller < best[i]:
                    cand = best[:i] + [smaller] + best[i + 1:]
                    r = attempt(strip(cand))
                    if r is not None:
                        best = strip(r['choices'])
                        improved = True
                        break
    return best, tried, True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--time', type=float, default=None)
    ap.add_argument('--runs', type=int, default=None)
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=int(os.environ.get('DST_WORKERS', '8')))
    ap.add_argument('--keep-going', action='store_true', help='count violations by signature instead of stopping')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    sys.path.insert(0, HERE)
    try:
        if a.replay:
            return replay(a)
        return search(a)
    except ZygoteError as e:
        print('HARNESS-ERROR', str(e))
        return 2


def replay(a):
    rec = json.load(open(a.replay))
    z = make_zygote(rec['property'], rec['hash_seed'])
    job = dict(prop=rec['property'], choices=rec['choices'], entropy=rec['entropy'], tier=rec['tier'],
               want_log=True, full_log=True)
    if rec.get('steps'):
        job.update(steps=rec['steps'], timeout=300)
    r = z.run(job)
    z.close()
    for line in r.get('log', []):
        print('  ', line)
    print(json.dumps({k: r.get(k) for k in ('status', 'signature', 'message', 'digest')}, indent=1))
    same = r['status'] == 'violation' and r['signature'] == rec['signature'] and r['digest'] == rec['digest']
    print('REPRODUCED exactly' if same else 'NOT reproduced')
    if r['status'] == 'violation':
        print(f'VIOLATION property={rec["property"]} replay={a.replay}')
        return 1
    return 0


def search(a):
    from dst.registry import META
    pid = a.property
    meta = META[pid]
    budget = a.time if a.time is not None else meta['quick_s' if a.tier == 'quick' else 'thorough_s']
    max_runs = a.runs or (meta['max_runs'] if a.tier == 'quick' else 10 ** 9)
    known = known_findings(pid)
    t0 = time.monotonic()
    deadline = t0 + budget
    lock = threading.Lock()
    state = dict(next=0, done=0, stop=False, errors=[], timeouts=0)
    agg = dict(faults={}, probes={}, states=set(), shapes=set(), sim=0.0, nontrivial=0, steps=0,
               toolong=0, outcome={}, redo=0, redo_bad=0)
    violations = []
    known_hits = {}
    samples = []
    zygotes = []

    def worker(wi):
        try:
            z = make_zygote(pid, HASH_SEEDS[wi % len(HASH_SEEDS)])
        except Exception as e:
            with lock:
                state['errors'].append(str(e))
                state['stop'] = True
            return
        zygotes.append(z)
        try:
            while True:
                with lock:
                    if state['stop'] or state['next'] >= max_runs or time.monotonic() > deadline:
                        return
                    i = state['next']
                    state['next'] += 1
                job = dict(prop=pid, seed=f'{pid}:{a.seed}:{i}', entropy=f'{a.seed}:{i}', tier=a.tier,
                           want_log=i < 3)
                r = run_resolving_timeout(z, job)
                again = None
                if r['status'] == 'ok' and i % 40 == 7:
                    again = z.run(dict(job, timeout=RUN_TIMEOUT))
                with lock:
                    state['done'] += 1
                    if again is not None:
                        agg['redo'] += 1
                        if again.get('digest') != r['digest']:
                            agg['redo_bad'] += 1
                            if os.environ.get('DST_DEBUG'):
                                print('NONDETERMINISTIC', job['seed'], z.hash_seed, file=sys.stderr)
                    if r['status'] in ('harness', 'timeout'):
                        state['errors'].append(f'run {job["seed"]} hash seed {z.hash_seed}: {r.get("message", r["status"])}')
                        if len(state['errors']) > 5 and not a.keep_going:
                            state['stop'] = True
                        continue
                    if r['status'] == 'toolong':
                        agg['toolong'] += 1
                        continue
                    for k, v in r['faults'].items():
                        agg['faults'][k] = agg['faults'].get(k, 0) + v
                    for k, v in r['probes'].items():
                        agg['probes'][k] = agg['probes'].get(k, 0) + v
                    for k, v in r['outcome'].items():
                        agg['outcome'][k] = agg['outcome'].get(k, 0) + v
                    if len(agg['states']) < 2_000_000:
                        agg['states'].update(r['states'])
                    if r['nontrivial']:
                        agg['nontrivial'] += 1
                        agg['shapes'].add(r['digest'])
                    agg['sim'] += r['sim_seconds']
                    if r.get('log') and len(samples) < 3 and i < 40 and r['status'] == 'ok':
                        samples.append(dict(seed=job['seed'], hash_seed=z.hash_seed, choices=len(r['choices']),
                                            trace=[x[:240] for x in r['log'][:25]]))
                    if r['status'] == 'violation':
                        k = match_known(known, r)
                        if k is not None:
                            known_hits[k['signature'] + k.get('match', '')] = k
                        else:
                            violations.append((job, z.hash_seed, r))
                            if not a.keep_going:
                                state['stop'] = True
        except Exception as e:
            with lock:
                state['errors'].append(repr(e))
                state['stop'] = True

    # the recorded executions of known findings come first: a finding is announced only while it is there
    for k in known:
        if k.get('replay'):
            f = json.load(open(os.path.join(HERE, k['replay'])))
            z = make_zygote(pid, f['hash_seed'])
            try:
                r = z.run(dict(prop=pid, choices=f['choices'], entropy=f['entropy'], tier=f['tier'], timeout=RUN_TIMEOUT))
            finally:
                z.close()
            if r['status'] == 'violation' and match_known([k], r):
                known_hits[k['signature'] + k.get('match', '')] = k

    threads = [threading.Thread(target=worker, args=(i,)) for i in range(a.workers)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    search_s = time.monotonic() - t0

    code = 0
    vlines = []
    if violations and a.keep_going:
        by = {}
        for job, hs, r in violations:
            by.setdefault(r['signature'], []).append((job, hs, r))
        for sig, vs in sorted(by.items(), key=lambda kv: -len(kv[1])):
            print(f'{len(vs):5d} {sig}   e.g. {vs[0][0]["seed"]} hash seed {vs[0][1]}: {vs[0][2]["message"][:600]}')
        code = 1
    elif violations:
        job, hs, r = min(violations, key=lambda x: len(x[2]['choices']))
        path = report(a, job, hs, r, zygotes)
        vlines.append(f'VIOLATION property={pid} replay={path}')
        code = 1
    for z in zygotes:
        z.close()
    if state['errors'] and code == 0:
        for e in state['errors'][:5]:
            print('HARNESS-ERROR', e[-2500:])
        code = 2
    if code == 0 and state['done'] == 0:
        print('HARNESS-ERROR no run completed')
        code = 2

    if not a.no_evidence:
        write_evidence(a, pid, meta, agg, state, samples, search_s, time.monotonic() - t0, len(violations), known_hits)
    for k in known:
        if k.get('always') == 'yes' or any(h is k for h in known_hits.values()):
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    rate = state['done'] / max(search_s, 1e-9)
    print(f'{pid} {a.tier}: {state["done"]} simulated runs in {search_s:.1f} s ({rate * 3600:.0f}/h), '
          f'{agg["nontrivial"]} non-trivial, {len(agg["shapes"])} distinct executions, {len(agg["states"])} states, '
          f'faults {sum(agg["faults"].values())}, simulated {agg["sim"]:.0f} s, '
          f'replayed {agg["redo"]} ({agg["redo_bad"]} differed), violations {len(violations)}')
    if a.keep_going:
        print('   outcomes', agg['outcome'], 'probes', agg['probes'], 'faults', agg['faults'])
    for v in vlines:
        print(v)
    return code


def report(a, job, hs, r, zygotes):
    pid = a.property
    z = next((z for z in zygotes if z.hash_seed == hs), zygotes[0])
    base = dict(prop=pid, entropy=job['entropy'], tier=a.tier)
    limit = time.monotonic() + (60 if a.tier == 'quick' else 240)
    choices, tried = r['choices'], 0
    final = r
    steps = r.get('steps')
    if not steps:
        choices, tried, ok = minimise(z, base, r['choices'], r['signature'], limit)
        rr = z.run(dict(base, choices=choices, want_log=True, full_log=True, timeout=RUN_TIMEOUT))
        if rr['status'] == 'violation' and rr['signature'] == r['signature']:
            final = rr
        else:
            choices = r['choices']
            final = z.run(dict(base, choices=choices, want_log=True, full_log=True, timeout=RUN_TIMEOUT))
            if final['status'] != 'violation':
                print('note: the violation did not show again when its choices were replayed')
                final = r
    os.makedirs(REPLAYS, exist_ok=True)
    name = f'{pid}-{hashlib.md5(r["signature"].encode()).hexdigest()[:6]}-{a.seed}.json'
    path = os.path.join(REPLAYS, name)
    rec = dict(property=pid, seed=job['seed'], hash_seed=hs, entropy=job['entropy'], tier=a.tier,
               signature=final['signature'], message=final['message'], digest=final['digest'],
               choices=choices, original_choices=len(r['choices']), minimisation_runs=tried,
               faults=final.get('faults'), steps=steps, trace=final.get('log', [])[-400:])
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    print(f'violation of {pid}: {final["signature"]}')
    print(f'  {final["message"][:1500]}')
    print(f'  seed {job["seed"]}, hash seed {hs}, {len(r["choices"])} choices minimised to {len(choices)} '
          f'in {tried} runs; trace:')
    for line in (final.get('log') or [])[-30:]:
        print('   ', line[:300])
    return os.path.relpath(path, HERE)


def write_evidence(a, pid, meta, agg, state, samples, search_s, wall, nviol, known_hits):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=meta['level'],
              coverage=dict(evaluations=state['done'], distinct_nontrivial=len(agg['shapes']),
                            rule=meta['rule'], samples=samples or [dict(note='no run completed')],
                            runs_per_hour=int(state['done'] / max(search_s, 1e-9) * 3600),
                            seeds=f'{pid}:{a.seed}:0 .. {pid}:{a.seed}:{max(0, state["next"] - 1)} '
                                  f'under hash seeds {HASH_SEEDS}',
                            simulated_seconds=round(agg['sim'], 1),
                            faults_injected=agg['faults'],
                            distinct_states=len(agg['states']),
                            state_measure=meta['states'],
                            probes=agg['probes'], outcomes=agg['outcome'],
                            replayed_runs=agg['redo'], replayed_runs_that_differed=agg['redo_bad'],
                            runs_cut_short=agg['toolong'],
                            real_components=meta['real'], stubbed_components=meta['stub'],
                            known_findings_met=sorted(known_hits)),
              assumptions=meta['assumptions'], wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())

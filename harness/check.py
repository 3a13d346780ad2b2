"""Check one property: run its scenarios against the library and judge the recorded
traces with the specification.

    check.py C01 [--tier quick|thorough] [--replay FILE] [--seed N] [--count N] [--show N]

Exit status 0: held on everything explored; 1: violated, with VIOLATION lines;
2: the machinery itself failed.
"""
import argparse
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import families  # noqa: E402
import models  # noqa: E402
from tlc import validate  # noqa: E402

PYTHON = os.environ.get('VERIF_PYTHON') or (
    '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(ROOT, 'evidence')
FINDINGS = os.path.join(ROOT, 'known-findings.txt')
CHUNK = 40              # scenarios per batch
BUDGET = {'quick': 420, 'thorough': 3000}     # stop starting new batches after so many seconds
MAX_EVENTS = 600        # longer traces are cut: what is observed up to there counts


class Machinery(Exception):
    pass


# --- running scenarios ---------------------------------------------------------------
def execute(scenarios, timeout=240):
    """The traces of scenarios; None for one that brings the interpreter down."""
    with tempfile.TemporaryDirectory(prefix='exec') as d:
        i, o = os.path.join(d, 'i.json'), os.path.join(d, 'o.json')
        with open(i, 'w') as f:
            json.dump(scenarios, f)
        env = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent',
               'PYTHONHASHSEED': '0', 'TMPDIR': d}
        err = ''
        try:
            p = subprocess.run([PYTHON, os.path.join(HERE, 'execu.py'), i, o], env=env, cwd=d, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout,
                               errors='replace')
            err = p.stderr
            if p.returncode == 0:
                with open(o) as f:
                    return json.load(f), ['' for _ in scenarios]
        except subprocess.TimeoutExpired:
            err = 'timeout'
        except ValueError as x:
            err = str(x)
    if len(scenarios) == 1:
        return [None], [err[-1500:]]
    traces, errs = [], []
    h = len(scenarios) // 2
    for part in (scenarios[:h], scenarios[h:]):
        a, b = execute(part, max(30, timeout / 2))
        traces += a
        errs += b
    return traces, errs


INFRA = ('OutOfMemoryError', 'No space left', 'insufficient memory', 'Could not reserve', 'unable to create native thread', 'Java heap space')
MAX_TRACE = 8_000_000    # a longer one (in JSON) is skipped, and counted as such


def judge(traces):
    """Violations [(trace, event, clause)] and counts; traces the spec cannot even
    read (values outside everything it knows) are reported as 'outside'."""
    live = list(range(len(traces)))
    viols, states, events = [], 0, 0
    tries = 0
    while live:
        r = validate([traces[i] for i in live])
        if r['ok']:
            viols += [(live[a], b, c) for a, b, c in r['viols']]
            states += r['states']
            events += r['states'] - len(live)
            break
        if r['rc'] == -9 or any(s in r['out'] for s in INFRA):
            tries += 1
            if tries > 2:
                raise Machinery('TLC: ' + r['out'][-2000:])
            if len(live) > 1:      # try in halves
                h = len(live) // 2
                for part in (live[:h], live[h:]):
                    v, s, e = judge([traces[i] for i in part])
                    viols += [(part[a], b, c) for a, b, c in v]
                    states += s
                    events += e
                break
            continue
        # a trace the evaluation failed on: find it
        import re
        m = re.findall(r'/\\ t = (\d+)', r['out'])
        n = re.findall(r'/\\ l = (\d+)', r['out'])
        if not m or 'Error:' not in r['out']:
            raise Machinery('TLC: ' + r['out'][-2000:])
        bad = int(m[-1]) - 1
        viols += [(live[a], b, c) for a, b, c in r['viols'] if a == bad]
        viols.append((live[bad], int(n[-1]) if n else 1, 'outside'))
        if os.environ.get('VERIF_DEBUG'):
            print(r['out'][-3000:])
        del live[bad]
    return sorted(set(viols)), states, events


def batch(args):
    """One batch: generated scenarios (or given ones) through the library and the spec."""
    prop, seed, ids, given = args
    try:
        scs = given if given is not None else [families.scenario(prop, seed, i) for i in ids]
        traces, errs = execute(scs)
        out = {'n': len(scs), 'viols': [], 'fam': Counter(s.get('family', '?') for s in scs), 'ops': Counter(),
               'empty': 0, 'states': 0, 'events': 0, 'refused': 0, 'sample': None, 'skipped': 0}
        kept = []
        for i, t in enumerate(traces):
            if t is None:
                out['viols'].append({'scenario': scs[i], 'event': 0, 'clause': 'outside', 'op': 'crash', 'detail': errs[i]})
            elif t == 'skipped':
                out['skipped'] += 1
            elif len(json.dumps(t)) > MAX_TRACE:
                out['skipped'] += 1
            else:
                kept.append(i)
        ts = [traces[i][:MAX_EVENTS] for i in kept]
        for t in ts:
            out['ops'].update(e['op'] for e in t if e['op'] != 'drop')
            out['refused'] += sum(not e['obs']['ok'] for e in t if e['op'] != 'drop')
            out['empty'] += len(t) < 3
        v, out['states'], out['events'] = judge(ts)
        for a, b, c in v:
            e = ts[a][b - 1] if b <= len(ts[a]) else {'op': '?', 'obs': {'exc': ''}}
            out['viols'].append({'scenario': scs[kept[a]], 'event': b, 'clause': c, 'op': e['op'], 'detail': describe(ts[a], b)})
        if ts:
            t = min((t for t in ts if len(t) > 5), key=len, default=ts[0])
            out['sample'] = sample(scs[kept[ts.index(t)]], t)
        return out
    except Exception:
        return {'error': traceback.format_exc()}


def short(e):
    keep = {k: v for k, v in e.items() if k not in ('d', 'obs', 'src', 'c') or (k == 'c' and isinstance(v, str))}
    return keep


def describe(trace, b):
    if not 1 <= b <= len(trace):
        return ''
    e = trace[b - 1]
    src = '\n'.join(x['src'] for x in trace[:b] if x['op'] == 'define' and 'src' in x)
    return {'classes': src, 'event': short(e), 'observed': {k: v for k, v in e.get('obs', {}).items() if v not in ('', [], -1)},
            'changed': e.get('d')}


def brief(x):
    """Without the bulk of long data."""
    if isinstance(x, dict):
        return {k: brief(v) for k, v in x.items()}
    if isinstance(x, list):
        return [brief(v) for v in x[:24]] + ([f'... {len(x) - 24} more'] if len(x) > 24 else [])
    if isinstance(x, str) and len(x) > 600:
        return x[:600] + '...'
    return x


def sample(sc, t):
    return brief(sample_of(sc, t))


def sample_of(sc, t):
    return {'scenario': sc.get('id'), 'family': sc.get('family'), 'classes': [x.get('src', '') for x in t if x['op'] == 'define'][:3],
            'events': [short(x) | {'ok': x.get('obs', {}).get('ok')} for x in t if x['op'] != 'define'][:8]}


# --- known findings -----------------------------------------------------------------------
def findings(prop):
    """Lines 'finding: property=<id> match=<python-free text> <what fails>'."""
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith('finding: '):
                    parts = dict(p.split('=', 1) for p in line.split()[1:] if '=' in p)
                    if parts.get('property') == prop:
                        out.append((parts.get('match', '\0'), line.strip()))
    return out


# --- the check -----------------------------------------------------------------------------
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--count', type=int)
    ap.add_argument('--show', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 2)
    ap.add_argument('--no-models', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    clauses = families.FAMILIES[prop][0]
    if a.replay:
        return replay(a, clauses)
    t0 = time.time()
    count = a.count if a.count is not None else families.count(prop, a.tier)
    with ProcessPoolExecutor(a.jobs) as pool:
        return explore(a, pool, clauses, t0, count)


def explore(a, pool, clauses, t0, count):
    prop = a.prop
    known = findings(prop)
    tot = {'scenarios': 0, 'states': 0, 'events': 0, 'refused': 0, 'empty': 0, 'skipped': 0, 'model_states': 0,
           'model_transitions': 0}
    fam, ops, all_clauses = Counter(), Counter(), Counter()
    samples, viols, suppressed, model_runs = [], [], Counter(), []
    # scenarios enumerated by TLC from the models of this property
    todo = []
    given = 0
    if not a.no_models:
        for m in models.run(prop, a.tier, a.jobs, a.seed):
            if not m['ok']:
                raise Machinery(f'model {m["name"]}: ' + m['out'][-2000:])
            model_runs.append({k: m[k] for k in ('name', 'states', 'transitions', 'seconds', 'scenarios')})
            tot['model_states'] += m['states']
            tot['model_transitions'] += m['transitions']
            scs = m['given']
            given += len(scs)
            todo += [(prop, a.seed, None, scs[i:i + CHUNK]) for i in range(0, len(scs), CHUNK)]
    todo += [(prop, a.seed, range(i, min(i + CHUNK, count)), None) for i in range(0, count, CHUNK)]
    todo.reverse()
    pending = set()
    stopped = False
    while todo or pending:
        while todo and len(pending) < a.jobs and not stopped:
            pending.add(pool.submit(batch, todo.pop()))
        if not pending:
            break
        done, pending = wait(pending, return_when=FIRST_COMPLETED)
        for f in done:
            r = f.result()
            if 'error' in r:
                raise Machinery(r['error'])
            tot['scenarios'] += r['n']
            for k in ('states', 'events', 'refused', 'empty', 'skipped'):
                tot[k] += r[k]
            fam.update(r['fam'])
            ops.update(r['ops'])
            if r['sample'] and len(samples) < 3:
                samples.append(r['sample'])
            for v in r['viols']:
                all_clauses[v['clause']] += 1
                if v['clause'] in clauses:
                    key = json.dumps(v['detail'])
                    hit = [line for m, line in known if m in key]
                    if hit:
                        suppressed[hit[0]] += 1
                    else:
                        viols.append(v)
        if time.time() - t0 > BUDGET[a.tier] or len(viols) > 200:
            stopped = True
    for line, n in sorted(suppressed.items()):
        print('KNOWN-FINDING: ' + line[len('finding: '):])
    folder = os.path.join(EVIDENCE, 'replays')
    shown = 0
    seen = Counter()
    for v in viols:
        seen[v['clause']] += 1
        if seen[v['clause']] > 3 or shown >= 10:
            continue
        shown += 1
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f'{prop}-{shown}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, **v}, f, indent=1)
        print(f'VIOLATION property={prop} replay={path} clause={v["clause"]} operation={v["op"]}')
        if shown <= a.show:
            d = v['detail']
            if isinstance(d, dict):
                print(d['classes'])
                print(json.dumps({k: d[k] for k in ('event', 'observed')})[:700])
            else:
                print(d)
    if a.show or viols:
        print('clauses of all differences seen:', dict(all_clauses))
    cov = {'states': tot['states'] + tot['model_states'], 'transitions': tot['events'] + tot['model_transitions'],
           'traces_validated_against_impl': tot['scenarios'] - tot['skipped'], 'samples': samples,
           'events_validated': tot['events'], 'operations': dict(ops), 'refused_by_library': tot['refused'],
           'scenarios_by_family': dict(fam), 'scenarios_enumerated_by_tlc': given, 'models': model_runs,
           'stopped_by_time': stopped and bool(todo)}
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': families.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} {a.tier}: {cov["traces_validated_against_impl"]} traces, {tot["events"]} events validated '
          f'({tot["refused"]} refused), {tot["model_states"]} model states, {len(viols)} violations, {ev["wall_s"]} s'
          + (f', {tot["empty"]} nearly empty' if a.show else ''))
    if not viols and tot['scenarios'] == 0:
        raise Machinery('nothing was explored')
    return 1 if viols else 0


def replay(a, clauses):
    with open(a.replay) as f:
        r = json.load(f)
    out = batch((a.prop, a.seed, None, [r['scenario']]))
    if os.environ.get('EXPLAIN') and 'error' not in out:
        ts, _ = execute([r['scenario']])
        print('\n'.join(x for x in validate(ts)['out'].splitlines() if not x.startswith(('TLC2', 'Parsing', 'Semantic'))))
    if 'error' in out:
        raise Machinery(out['error'])
    bad = [v for v in out['viols'] if v['clause'] in clauses]
    for v in bad:
        print(f'VIOLATION property={a.prop} replay={a.replay} clause={v["clause"]} operation={v["op"]}')
        d = v['detail']
        print(d['classes'] + json.dumps({k: d[k] for k in ('event', 'observed')})[:int(os.environ.get('WIDTH', 1500))] if isinstance(d, dict) else d)
    print(f'{out["events"]} events validated, {len(bad)} violations')
    return 1 if bad else 0


if __name__ == '__main__':
    try:
        code = main()
    except Machinery as x:
        print(f'machinery failure: {x}', file=sys.stderr)
        code = 2
    sys.stdout.flush()
    os._exit(code)

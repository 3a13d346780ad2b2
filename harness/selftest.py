"""Is the machinery itself in order?  Independent of the library: recorded traces (kept in
selftest.json) must be accepted by the specification, and copies of them with one observation
falsified must be rejected, at that event and by the expected clause.

    selftest.py            check
    selftest.py --record   record selftest.json anew from the library (development only)
"""
import copy
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from tlc import JARS, validate  # noqa: E402

FILE = os.path.join(HERE, 'selftest.json')


def record():
    import check
    import families
    out = []
    for prop in sorted(families.FAMILIES):
        best = None
        for i in range(12):
            ts, _ = check.execute([families.scenario(prop, 77, i)])
            t = ts[0]
            if isinstance(t, list) and 15 < len(t) < 90:
                n = len(json.dumps(t))
                if best is None or n < best[0]:
                    best = (n, t)
        if best:
            for e in best[1]:
                e.pop('src', None)
            out.append(best[1])
    with open(FILE, 'w') as f:
        json.dump(out, f, separators=(',', ':'))
    print(len(out), os.path.getsize(FILE))


def byte(b, i):
    return b[:i] + [b[i] ^ 1] + b[i + 1:]


def falsified(t):
    """(trace, event, clauses of which one must be reported)"""
    done = set()

    def put(i, name, change, clauses):
        if name in done:
            return
        x = copy.deepcopy(t[:i + 1])
        if change(x[i]) is not False:
            done.add(name)
            out.append((x, i + 1, clauses))

    out = []
    for i, e in enumerate(t):
        if e['op'] == 'drop':
            continue
        op, o, d = e['op'], e['obs'], e['d']
        if not o['ok']:
            continue
        def no(x): x['obs']['ok'] = False
        put(i, 'no.' + op, no, {'rejects'})
        if op in ('pack', 'packinto', 'packwrite', 'unpack', 'unpackfrom', 'unpackread'):
            def size(x): x['obs']['size'] += 1
            put(i, 'size.' + op, size, {'size'})
        if op == 'pack' and o['b']:
            def wrong(x): x['obs']['b'] = byte(x['obs']['b'], len(x['obs']['b']) // 2)
            put(i, 'bytes', wrong, {'bytes'})
            def more(x): x['obs']['b'] = x['obs']['b'] + [0]
            put(i, 'more', more, {'bytes'})
        if op == 'packinto' and e['off'] and d['bufs']:
            def before(x): x['d']['bufs'][0]['x'] = byte(x['d']['bufs'][0]['x'], 0)
            put(i, 'before', before, {'confined'})
        if op in ('packwrite', 'unpackread') and d['files']:
            def pos(x): x['d']['files'][0]['x']['p'] += 1
            put(i, 'pos.' + op, pos, {'position'})
        if op.startswith('unpack') and d['objs'] and d['objs'][0]['x']['f']:
            def value(x): x['d']['objs'][0]['x']['f'][-1]['v'] = {'k': 'none', 'z': 7}
            put(i, 'value.' + op, value, {'value'})
            def less(x): x['d']['objs'][0]['x']['f'].pop()
            put(i, 'less.' + op, less, {'value'})
        if op == 'define' and o.get('attrs'):
            def attrs(x): x['obs']['attrs'].reverse()
            if len(o['attrs']) > 1:
                put(i, 'attrs', attrs, {'attrs'})
            def nv(x): x['obs']['nv'] += 1
            put(i, 'nv', nv, {'numvalues'})
        if op in ('define', 'pack', 'wbo', 'unpack'):
            def other(x): x['d']['classes'] = ['Z']
            put(i, 'classes.' + op, other, {'frame.classes'})
        if op == 'eq':
            def eq(x): x['obs']['eq'] = not x['obs']['eq']
            put(i, 'eq', eq, {'equality'})
        if op == 'text':
            def text(x): x['obs']['str'] += ' '
            put(i, 'text', text, {'text'})
        if op in ('pack', 'unpack') and o.get('log'):
            def asked(x): x['obs']['log'][0]['seen'] = [{'n': 'zz', 'v': {'k': 'none', 'z': 0}}]
            put(i, 'asked.' + op, asked, {'decision', 'factory'})
    return out


def main():
    for j in JARS.split(':'):
        if not os.path.exists(j):
            sys.exit(f'missing {j}')
    with open(FILE) as f:
        traces = json.load(f)
    r = validate(traces)
    if not r['ok'] or r['viols']:
        print(r['out'][-3000:])
        sys.exit('recorded traces are not accepted')
    bad = [x for t in traces for x in falsified(t)]
    r = validate([x[0] for x in bad])
    if not r['ok']:
        print(r['out'][-3000:])
        sys.exit('falsified traces cannot be judged')
    missed = [(i, op(x), x[2]) for i, x in enumerate(bad)
              if not any(a == i and b == x[1] and c in x[2] for a, b, c in r['viols'])]
    if missed:
        print(missed[:20])
        sys.exit(f'{len(missed)} of {len(bad)} falsified observations were not noticed')
    print(f'{len(traces)} recorded traces accepted, all {len(bad)} falsified ones rejected')


def op(x):
    return x[0][-1]['op']


if __name__ == '__main__':
    if '--record' in sys.argv:
        record()
    main()

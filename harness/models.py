"""The exhaustive models checked with TLC, and the scenarios made of what they enumerate.

A model (spec/MC*.tla) is checked with the constants chosen here for a property and a tier:
TLC verifies its invariants in every state and prints every state (or history), which
becomes a scenario: the classes and values of the state, or the operations of the history,
are replayed into the library, and the recorded behaviour is judged by spec/Trace.tla.
"""
import json
import os
import re
import tempfile
import time

import families
from gen import BOS, Gen, I
from tlc import tlc

NUMS = ['bool', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f16', 'f32', 'f64']
EXTREMES = ['i8min', 'i8max', 'u8max', 'i16min', 'u16max', 'i32min', 'u32max', 'i64min', 'u64max', 'f64nan', 'f32neg0']
BASIC = ['pad1', 'pad3', 'char0', 'char1', 'char3', 'pascal1', 'pascal4']
CHARS = ['char3short', 'char3long', 'pascal4full', 'pascal4long', 'pascal300']
CUST = ['cint', 'cintf', 'cflag', 'cflt', 'cbyt', 'cpas', 'ceven', 'ceven16']
STRS = ['d8', 'd16', 'd32', 'd64', 't0', 'tA', 'net', 'u3', 'u5nul', 'ud8', 'ud16', 'ut0', 'unet', 'uasc', 'uxor']
LONGS = ['d8max', 'd16long', 't0empty', 't0term', 't0255', 't0256', 't0257', 't0512', 'net0', 'net127', 'net128', 'net256',
         'net300', 'ut0empty', 'unet130']
RESTS = ['rest', 'rest0', 'restuni']
USER = ['vint', 'u24', 'relrw', 'relw', 'relr']
BAD = ['u8over', 'u8neg', 'i8over', 'i8under', 'u16str', 'i32over', 'u64over', 'u64neg', 'i16none', 'f64str', 'char3str',
       'char3int', 'pascal4none', 'd8str', 'd8over', 't0int', 'netstr', 'uascbad', 'u8surr', 'ubyt', 'ud8over', 'vintneg',
       'u24over', 'relwbad', 'relover', 'restint']
ARRS = ['arr0', 'arr1', 'arr2', 'fix0', 'fix1', 'fix2', 'siz0', 'siz1', 'siz2', 'fsz1', 'fsz2']
TUPS = ['tup1', 'tupa', 'tupb']
UNIONS = ['lb1', 'lb2', 'lbd', 'la1', 'la16', 'lad']
CONDS = ['con1', 'con0', 'con0v', 'con0d', 'cont', 'conf']
NESTS = ['nest', 'nestbe', 'nestle', 'nestarr']
ALLW = ARRS + TUPS + UNIONS + CONDS + NESTS
FEW = ['arr2', 'siz2', 'fix2', 'tupa', 'tupb', 'lb1', 'la1', 'con1', 'con0', 'nestbe', 'nestarr']


def W(atoms, wraps=(), fields=2, nwraps=0, orders=('', '<', '>')):
    return {'model': 'MCWire', 'consts': {'Atoms': set(atoms), 'Wraps': set(wraps), 'MaxFields': fields, 'MaxWraps': nwraps,
                                          'Orders': set(orders)}}


def H(universe, depth, take=1):
    """Histories of a universe; only one in so many is replayed."""
    return {'model': 'MCHist', 'consts': {'Universe': universe, 'Depth': depth}, 'take': take}


def K(universe, *sizes, take=1):
    """Sequences of class definitions."""
    return {'model': 'MCClass', 'consts': {'Universe': universe, **{f'Size{i + 1}': n for i, n in enumerate(sizes)}}, 'take': take}


# property: (quick models, thorough models)
PLAN = {
    'C01': ([W(NUMS[1::2] + BASIC[:5] + ['pascal4', 'cint', 'd16', 'net', 'ud16', 'u24'], orders=('', '>'))],
            [W(NUMS + BASIC + CUST + STRS + USER, orders=BOS), W(['u8', 'u16', 'u64', 'char3', 'pad1', 'cint', 'd16'], FEW, 3, 1),
             W(['u8', 'i16', 'u32', 'f64', 'char3', 'pad3', 'cintf', 'd8'], fields=4, orders=('', '='))]),
    'C02': ([W(NUMS + EXTREMES + CHARS + BASIC[2:] + CUST + STRS + LONGS + USER, ['arr2', 'siz2', 'tupb', 'nestarr'], 1, 1,
               ('', '>'))],
            [W(NUMS + EXTREMES + CHARS + BASIC + CUST + STRS + LONGS + USER + RESTS, FEW, 2, 0, ('', '>')),
             W(EXTREMES + CHARS + CUST + STRS + LONGS + USER + RESTS, ALLW, 1, 1, ('', '>', '<')),
             W(['u16', 'char3', 'd8', 'ut0', 'cint', 'u24'], ALLW, 1, 2, ('', '>'))]),
    'C03': ([W(['u16', 'pad1', 'char3', 'cint', 'd16', 't0', 'ud8', 'u24', 'rest', 'u8over', 'd8str'], FEW, 1, 1, ('', '>'))],
            [W(NUMS + BASIC + CUST + STRS + LONGS + USER + RESTS + BAD, ALLW, 1, 1, ('', '>')),
             W(['u16', 'pad1', 'd16', 't0', 'rest', 'u8over'], ['arr2', 'siz2', 'tupb', 'lb1', 'la1', 'con0', 'nestbe'], 2, 2, ('', ))]),
    'C04': ([W(['u16', 'pad3', 'char3', 'd16', 't0', 'net', 'u24', 'rest'], FEW + ['fsz2'], 1, 1, ('', '>')),
             W(['u8', 'u64', 'char1', 'pad1', 't0', 'd16'], fields=2, orders=('',))],
            [W(NUMS + BASIC + CUST + STRS + LONGS + USER + RESTS, ALLW, 1, 1, ('', '>')),
             W(['u8', 'u16', 'u64', 'char1', 'pad1', 't0', 'd16', 'net', 'cint', 'ud8'], fields=3, orders=('', '>'))]),
    'C05': ([W(['u8', 'u32', 'char3', 'pad1', 'd16', 't0', 'net300', 'ud16', 'vint'], ARRS + UNIONS + CONDS + NESTS, 1, 1, ('', )),
             W(['u8', 'u64', 'char1', 'pad1', 't0', 'd16'], fields=2, orders=('', '<'))],
            [W(NUMS + BASIC + CUST + STRS + LONGS + USER + RESTS, ALLW, 1, 1, ('', '>')),
             W(['u8', 'u64', 'pad1', 't0', 'd16'], ALLW, 2, 1, ('', '>'))]),
    'C06': ([W(['i16', 'u64', 'f32', 'cint', 'd16', 'ud16', 'u24'], ARRS[2::3] + TUPS + UNIONS + CONDS[:1] + NESTS, 1, 1,
               ('', '<', '>'))],
            [W(NUMS + CUST + STRS + USER, ALLW, 1, 1, BOS), W(['i16', 'd32', 'u24'], ALLW, 1, 2, ('', '<', '>', '!'))]),
    'C07': ([W(['u16', 'char3', 'pascal4', 'cint', 'd16', 't0', 'net', 'ud8', 'u24'], FEW, 1, 1, ('', '>'))],
            [W(NUMS + BASIC + CUST + STRS + LONGS + USER, ALLW, 1, 1, ('', '>')),
             W(['u8', 'u32', 'pad3', 'd16', 't0', 'net'], ['arr2', 'siz2', 'tupb', 'lb1', 'la1', 'con1', 'nestbe'], 2, 1, ('', '<'))]),
    'C08': ([W(BAD + ['u16'], ['arr2', 'siz2', 'fix2', 'fix2bad', 'tupa', 'tupbad', 'lb2', 'lbn', 'la1', 'con1', 'con0v', 'nest'],
               1, 1, ('', '>')),
             W(BAD[:15] + ['u8', 'd16'], fields=2, orders=('',))],
            [W(BAD + ['u16', 'd8'], ALLW + ['fix2bad', 'tupbad', 'lbn'], 1, 2, ('', )),
             W(BAD + ['u8', 'd16', 'char3', 'pad1'], fields=2, orders=BOS)]),
    'C09': ([W(['u16', 'char3', 'd8', 'cint', 'pad1'], UNIONS + ['lbn', 'arr2', 'tupb', 'nestarr', 'con1'], 1, 2, ('', '>'))],
            [W(NUMS + CUST + STRS + RESTS + USER, UNIONS + ['lbn', 'arr2', 'tupb', 'nestarr', 'con1', 'con0'], 1, 2, ('', )),
             W(['u16', 't0', 'pad1'], UNIONS + ['lbn', 'arr2', 'tupb', 'nestarr', 'con1', 'con0'], 2, 2, ('', '>'))]),
    'C10': ([W(['u16', 'char3', 'd8', 'cint', 'pad1', 'rest'], CONDS + ['arr2', 'tupb', 'nestarr', 'lb1', 'siz2'], 1, 2, ('', '>'))],
            [W(NUMS + CUST + STRS + RESTS + USER, CONDS + ['arr2', 'tupb', 'nestarr', 'lb1', 'la1'], 1, 2, ('', )),
             W(['u16', 't0', 'pad1', 'rest'], CONDS + ['arr2', 'tupb', 'nestarr', 'lb1'], 2, 2, ('', '>'))]),
    'C13': ([W(['u8', 'pad1', 'd16'] + RESTS, ['arr2', 'fix1', 'tupa', 'tupb', 'lb2', 'lbd', 'la1', 'con1', 'con0', 'nest'], 2, 1, ('', )),
             W(RESTS, ['arr2', 'fix0', 'tupa', 'tupb', 'lb1', 'lb2', 'lbd', 'lad', 'con0', 'nest'], 1, 2, ('>', ))],
            [W(['u8', 'pad1'] + RESTS, ALLW, 2, 2, ('', )), W(RESTS, ALLW, 1, 2, ('<', '>'))]),
    'C17': ([W(CUST, ARRS[1:3] + ['fix2', 'siz2'] + TUPS + UNIONS[:4] + CONDS + NESTS[:2], 1, 1, ('', '>')),
             W(CUST + ['u8', 'pad1'], fields=2, orders=('', ))],
            [W(CUST, ALLW, 1, 2, ('', '>')), W(CUST + ['u8', 'u64', 'pad1', 'char3', 'd8'], fields=3, orders=('', '>'))]),
    'C19': ([W(STRS + LONGS + BASIC[2:] + CHARS + RESTS + ['d8over', 'uascbad', 'u8surr'], ['arr2', 'tupb', 'con1'], 1, 1, ('', '>'))],
            [W(STRS + LONGS + BASIC[2:] + CHARS + RESTS + ['d8over', 'ud8over', 'uascbad', 'u8surr'], ALLW, 1, 1, BOS),
             W(STRS + LONGS + CHARS + RESTS, fields=2, orders=('', '>'))]),
    'C20': ([W(['u16', 'pad1', 'char3', 'pascal4', 'cint', 'd8', 't0', 'ut0', 'u24'], ARRS, 1, 1, ('', '<', '>')),
             W(['u8', 'd16'], ARRS + ['tupb', 'nestarr', 'fix2bad'], 1, 2, ('', '>'))],
            [W(NUMS + BASIC + CUST + STRS + LONGS + USER, ARRS, 1, 1, BOS),
             W(['u8', 'u64', 'char3', 'd16', 't0'], ARRS + ['tupb', 'nestarr', 'fix2bad', 'lb1', 'con1'], 1, 3, ('', '>'))]),
}

# the histories (one in so many of those of three steps in quick, all of them and some of four in thorough)
for _p, _us in {'C03': ['streams'], 'C04': ['streams'], 'C05': ['state'], 'C06': ['orders'], 'C07': ['streams', 'tree'],
                'C09': ['unions'], 'C10': ['unions'], 'C11': ['state'], 'C14': ['state', 'custom', 'hooks'], 'C15': ['tree'],
                'C16': ['objects'], 'C17': ['custom'], 'C18': ['sers', 'hooks']}.items():
    _q, _t = PLAN.setdefault(_p, ([], []))
    for _u in _us:
        if _u == 'sers':
            _q.append(H(_u, 2, 2))
            _t += [H(_u, 2), H(_u, 3, 150)]
        else:
            _q.append(H(_u, 3, 10 if len(_us) > 1 or _q else 5))
            _t += [H(_u, 3), H(_u, 4, 20)]
# the definitions
for _p, _q, _t in [('C11', [K('inherit', 2, 1, 1, take=40)], [K('inherit', 2, 1, 1, take=4), K('inherit', 2, 2, 1, take=300), K('inherit', 1, 2, 2, take=100)]),
                   ('C12', [K('generic', 1, 1, 1, take=25), K('nested', 1, 1, 0)],
                    [K('generic', 2, 0, 0, take=2), K('generic', 1, 1, 1, take=3), K('generic', 2, 1, 0, take=40), K('nested', 2, 1, 0), K('nested', 2, 2, 0, take=3)]),
                   ('C13', [K('rest', 1, 1, 1), K('rest', 2, 1, 1, take=5)], [K('rest', 2, 1, 1), K('rest', 2, 2, 1, take=8), K('rest', 2, 1, 2, take=8)]),
                   ('C21', [K('decl', 0, 0, 0), K('decl', 1, 1, 1, take=12), K('gdecl', 1, 0, 0, take=4)],
                    [K('decl', 1, 1, 1), K('gdecl', 1, 1, 0), K('gdecl', 2, 1, 0, take=6)]),
                   ('C16', [K('inherit', 1, 1, 1, take=10)], [K('inherit', 1, 1, 1)])]:
    PLAN.setdefault(_p, ([], []))[0].extend(_q)
    PLAN[_p][1].extend(_t)


# --- TLC --------------------------------------------------------------------------------
def literal(x):
    if isinstance(x, (set, frozenset)):
        return '{' + ', '.join(literal(y) for y in sorted(x)) + '}'
    return json.dumps(x) if isinstance(x, str) else str(x).upper() if isinstance(x, bool) else str(x)


CHECKED = {'MCWire': ['INVARIANTS Laws Representable Refused Export', 'CONSTRAINT Constraint'],
           'MCClass': ['INVARIANTS SubclassLaws ByHand TwoSteps OneByOne RestLast RestRefused Export', 'PROPERTIES Frame'],
           'MCHist': ['INVARIANTS Sound Reversible Export', 'PROPERTIES Frame Confined']}


def check(m, workers, timeout):
    """Check a model: its result, and what it printed."""
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix='mc') as d:
        cfg = os.path.join(d, 'm.cfg')
        with open(cfg, 'w') as f:
            f.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
            for k, v in m['consts'].items():
                f.write(f'CONSTANT {k} = {literal(v)}\n')
            f.write('\n'.join(CHECKED[m['model']]) + '\n')
        rc, out = tlc(m['model'] + '.tla', cfg, workers=workers, heap='4g', timeout=timeout)
    got = sorted({x for x in out.splitlines() if x.startswith('"@@')})
    rest = '\n'.join(x for x in out.splitlines() if not x.startswith('"@@'))
    n = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', rest)
    ok = rc == 0 and n is not None
    return {'name': m['model'], 'ok': ok, 'states': int(n[2]) if n else 0, 'transitions': int(n[1]) if n else 0,
            'seconds': round(time.time() - t0, 1), 'out': rest,
            'items': [json.loads(json.loads(x)[2:]) for x in got] if ok else []}


# --- scenarios of the states of MCWire -----------------------------------------------------
def rename(x, m):
    if isinstance(x, dict):
        x = {k: rename(v, m) for k, v in x.items()}
        if x.get('k') in ('ref', 'inst'):
            x['n'] = m.get(x['n'], x['n'])
        elif x.get('k') == 'obj':
            x['cls'] = m.get(x['cls'], x['cls'])
        elif x.get('k') == 'la':
            x.update(own=False, vals=[], style='tup')
        return x
    if isinstance(x, list):
        return [rename(v, m) for v in x]
    return x


def patient(g, h):
    """Whether corrupted counts are harmless: no wide count of possibly empty items."""
    if isinstance(h, dict):
        if h.get('k') == 'arr' and h['cf'] not in ('', 'uint8'):
            if not g.nonempty(h['t']):
                return False
        return all(patient(g, x) for x in h.values())
    return not isinstance(h, list) or all(patient(g, x) for x in h)


def record(g, prop, item):
    """One state: the classes, the value, and what to do with them."""
    m = {d['n']: g.uid('K') for d in item['subs'] + [item['c']]}
    for d in item['subs'] + [item['c']]:
        c = g.define(m[d['n']], [(f['n'], rename(f['h'], m)) for f in d['own']], bo=d['bo'])
    v = rename(item['v'], m)
    r = g.r
    final = g.isfinal(c)
    flips = ['flip', 'insert'] if all(patient(g, h) for k in m.values() for _, h in g.classes[k].hints) else ['cut']
    if prop == 'C03':
        g.full(c, packs=3, unpacks=6, v=v)
    elif prop == 'C04':
        o, L = g.full(c, packs=3, unpacks=2, v=v)
        g.pack_into(o, L, extra=0)
        g.pack_into(o, L, extra=-1)
        f = g.pack_write(o)
        if not final:
            g.emit('packwrite', o=o, file=f, g='')
            f = g.uid('f')
            g.emit('file', id=f, kind=g.filekind(), b=[], src=[{'ev': L}, {'ev': L}, {'lit': [7]}], p=0)
            for _ in range(2):
                g.emit('unpackread', o=g.uid('o'), c=c.n, file=f, g='', **{'from': L})
    elif prop == 'C06':
        o, L = g.full(c, packs=2, unpacks=1, v=v)
        x = g.uid('o')
        g.emit('wbo', o=o, r=x, bo=r.choice([b for b in BOS if b != c.bo]))
        L = g.pack(x)
        g.pack_into(x, L)
        for way in g.WAYS:
            g.unpack(c, [{'ev': L}], way, False, x, final, g='', frm=L)
    elif prop == 'C07':
        o = g.new(c, v)
        L = g.pack(o)
        t = g.new(c, v)
        g.sweep(c, L, t, 'cut', 40, final, ways=3)
        g.sweep(c, L, t, r.choice(flips), 4, final, ways=3)
    elif prop == 'C08':
        o = g.new(c, v)
        grp = g.uid('g')
        L = g.pack(o, g=grp)
        b = g.uid('b')
        g.emit('buf', id=b, kind=g.wbufkind(), b=[9] * max(600, len(json.dumps(v))))
        g.emit('packinto', o=o, buf=b, off=r.choice([0, 1, 4]), g=grp, noff=False)
        g.pack_write(o, g=grp)
        g.pack_into(o, L, extra=-1)
    elif prop in ('C09', 'C10', 'C17', 'C19', 'C20'):
        x = g.full(c, packs=2, unpacks=3, v=v)
        if r.random() < .4:
            t = g.new(c, v)
            g.sweep(c, x[1], t, r.choice(['cut', flips[0]]), 5, final, ways=2)
    else:
        g.full(c, packs=2, unpacks=2, v=v)


def bundle(items, prop, name, per, make):
    """Scenarios of several items each."""
    out = []
    for i in range(0, len(items), per):
        g = Gen(f'{prop}/{name}/{i}')
        for x in items[i:i + per]:
            make(g, prop, x)
        sc = g.scenario(f'{prop}/{name}/{i}')
        sc['family'] = name
        out.append(sc)
    return out


# --- scenarios of the histories of MCHist ------------------------------------------------
OBJS = ('new', 'set', 'grow', 'pack', 'packinto', 'packwrite', 'unpack', 'unpackfrom', 'unpackread', 'wbo', 'text')
LABELS = ('pack', 'packinto', 'packwrite', 'unpack', 'unpackfrom', 'unpackread')


def history(g, prop, item):
    """One history: the classes once for all histories of a scenario, the rest anew."""
    if not g.events:
        g.known, g.parts = {}, {}
        for e in item['init']:
            if e['op'] in ('define', 'ser'):
                g.known[e['c']['n'] if e['op'] == 'define' else e['s']] = g.uid('K' if e['op'] == 'define' else 's')
                step(g, e, g.known)
    m = dict(g.known)
    made = []
    sers = []
    for e in item['init'] + item['hist']:
        op = e['op']
        if op == 'define' and e['c']['n'] not in m:
            m[e['c']['n']] = g.uid('K')
        elif op == 'define' or op == 'ser':
            continue
        elif op in ('seradd', 'sermul', 'serwbo'):
            m[e['s']] = g.uid('s')
            sers.append(m[e['s']])
        for k in ('o', 'r', 'id'):
            if k in e and e[k] not in m:
                m[e[k]] = g.uid({'o': 'o', 'r': 'o', 'id': 'b'}[k])
                made.append(m[e[k]])
        step(g, e, m)
    if sers:
        ts = g.parts.get(sers[-1])
        if ts is not None:
            families.use_ser(g, sers[-1], ts, families.ser_vals(g, ts))
    elif item['init'][0]['op'] == 'define':
        for o in {m[e['o']] for e in item['init'] if e['op'] == 'new'}:
            g.emit('pack', o=o, label=g.uid('p'), g='')
    g.emit('drop', ids=made)


def step(g, e, m):
    """An event of a history, its names replaced."""
    op = e['op']
    e = rename(json.loads(json.dumps(e)), m)
    for k in ('o', 'r', 'id', 'buf', 'file', 's', 'sa', 'sb', 'a', 'b'):
        if isinstance(e.get(k), str):
            e[k] = m[e[k]]
    if op == 'define':
        c = e['c']
        c['n'] = m[c['n']]
        for b in c['bases']:
            b['n'] = m[b['n']]
        g.names.update(f['n'] for f in c['own'])
    elif isinstance(e.get('c'), str) and e['c'] != '':
        e['c'] = m[e['c']]
    if op in ('packinto', 'unpackfrom'):
        e['noff'] = len(g.events) % 2 == 0
    if op in LABELS:
        e['g'] = ''
    if op == 'pack':
        e['label'] = g.uid('p')
    g.events.append(e)
    # the parts of a serializer
    if op == 'ser':
        g.parts[e['s']] = e['ts']
    elif op == 'seradd':
        a, b = g.parts.get(e['sa']), g.parts.get(e['sb'])
        g.parts[e['s']] = a + b if a is not None and b is not None else None
    elif op == 'sermul':
        a = g.parts.get(e['sa'])
        g.parts[e['s']] = a * e['n'] if a is not None else None
    elif op == 'serwbo':
        g.parts[e['s']] = g.parts.get(e['sa'])


# --- scenarios of the sequences of definitions of MCClass -----------------------------------
def lite(g, d, prop):
    """A record packed and unpacked, if one can be made up (not for every class that may be declared)."""
    try:
        return g.lite(d)
    except (KeyError, IndexError, TypeError):
        if prop != 'C21':
            raise


def classes(g, prop, item):
    """Classes defined one on another, then records of each."""
    m = {c['n']: g.uid('K') for c in item['defs']}
    r = g.r
    defined = []
    rest = item['defs'][0]['n'] == 'A' and not item['defs'][2]['bases']
    for c, ok in zip(item['defs'], item['ok']):
        own = [(f['n'], rename(f['h'], m)) for f in c['own']]
        for n, h in own:
            if rest and n == 'n' and h['k'] == 'num':
                h['vals'] = [I(0), I(1), I(2)] if r.random() < .3 else [I(1), I(2)]
        d = g.define(m[c['n']], own, bases=[(m[b['n']], [rename(a, m) for a in b['a']]) for b in c['bases']], gp=c['gp'],
                     bo=c['bo'], mode=c['mode'], **({'generic': True, 'gfirst': r.random() < .5} if c['gp'] else {}))
        if ok:
            defined.append(d)
            if r.random() < .3 and not d.params and not families.has_inst(g, d):
                lite(g, d, prop)
        else:
            del g.classes[d.n]
    r.shuffle(defined)
    for d in defined:
        inst = families.has_inst(g, d)
        if d.params:
            if not inst and r.random() < .3:
                lite(g, d, prop)
        elif inst or (prop == 'C12' and d.d['bases'] and r.random() < .6):
            families.same_as_hand(g, d)
        elif prop == 'C16':
            objects(g, d)
        else:
            x = lite(g, d, prop)
            if prop == 'C13' and x:
                for way in r.sample(g.WAYS, 2):
                    g.unpack(d, [{'ev': x[1]}, {'lit': g.junk(r.choice([0, 1, 5]))}], way, r.random() < .5, x[0], g.isfinal(d))


def objects(g, c):
    """Objects of a class by position and by name, and without or with too many arguments; their text, and which are equal."""
    try:
        v, w = g.obj(c), g.obj(c)
    except families.NoValue:
        return
    a = g.new(c, v)
    names = [f['n'] for f in v['f']]
    k = g.r.randint(0, len(names))
    perm = names[k:]
    g.r.shuffle(perm)
    b = g.uid('o')
    g.emit('new', o=b, c=c.n, a=[f['v'] for f in v['f']], kw=names[k:], perm=perm)
    d = g.new(c, w)
    for x in (a, b):
        g.emit('text', o=x)
    for x, y in ((a, b), (a, d), (d, b)):
        g.emit('eq', a=x, b=y)
    e = g.uid('o')
    args = [f['v'] for f in v['f']]
    g.emit('new', o=e, c=c.n, a=args[:-1] if args and g.r.random() < .5 else args + [I(0)])


MAKE = {'MCWire': (6, record), 'MCHist': (25, history), 'MCClass': (10, classes)}


def run(prop, tier, jobs, seed=1):
    out = []
    for i, m in enumerate(PLAN.get(prop, ([], []))[0 if tier == 'quick' else 1]):
        r = check(m, jobs, 300 if tier == 'quick' else 3000)
        per, make = MAKE[m['model']]
        name = ' '.join([m['model']] + [m['consts'][k] for k in ('Universe',) if k in m['consts']] + [str(i)])
        take = m.get('take', 1)
        items = r.pop('items')[seed % take::take]
        r['given'] = bundle(items, prop, name, per, make) if r['ok'] else []
        r['name'] = name
        r['scenarios'] = len(r['given'])
        out.append(r)
    return out

"""Scenario generator: random classes over every hint, values for them, and programs.

Nothing here judges anything: it only has to produce interesting inputs.  What the
library must do with them is decided by the TLA+ specification.
"""
import copy
import random
import struct

INTS = {'int8': (1, True), 'uint8': (1, False), 'int16': (2, True), 'uint16': (2, False),
        'int32': (4, True), 'uint32': (4, False), 'int64': (8, True), 'uint64': (8, False)}
FLOATS = {'float16': 'e', 'float32': 'f', 'float64': 'd'}
COUNTS = ['uint8', 'uint16', 'uint32', 'uint64']
BOS = ['', '<', '>', '=', '@', '!']
ENCS = ['utf8', 'ascii', 'latin1', 'utf16', 'rev', 'xor']


# --- abstract values ---------------------------------------------------------------
def I(n):
    return {'k': 'int', 'neg': n < 0, 'mag': list(abs(n).to_bytes((abs(n).bit_length() + 7) // 8, 'little'))}


def Bo(b):
    return {'k': 'bool', 'b': bool(b)}


def By(s):
    return {'k': 'byt', 's': list(s)}


def St(s):
    return {'k': 'str', 'c': [ord(c) for c in s]}


def Lst(xs):
    return {'k': 'lst', 'i': list(xs)}


def Tup(xs):
    return {'k': 'tup', 'e': list(xs)}


NONE = {'k': 'none', 'z': 0}


def Fl(x):
    return {'k': 'flt', 'd': list(struct.pack('>d', x))}


def num_of(v):
    n = int.from_bytes(bytes(v['mag']), 'little')
    return -n if v['neg'] else n


def length(v):
    return {'byt': lambda: len(v['s']), 'str': lambda: len(v['c']), 'lst': lambda: len(v['i']),
            'tup': lambda: len(v['e'])}.get(v['k'], lambda: -1)()


class Err(Exception):
    pass


class NoValue(Exception):
    """No representable value found this time."""


def truthy(v):
    k = v['k']
    if k == 'int':
        return bool(v['mag'])
    if k == 'bool':
        return v['b']
    if k == 'none':
        return False
    if k == 'flt':
        return struct.unpack('>d', bytes(v['d']))[0] != 0
    if k in ('byt', 'str', 'lst', 'tup'):
        return length(v) > 0
    return True


def ev(x, f):
    k = x['x']
    if k == 'attr':
        for a in f:
            if a['n'] == x['n']:
                return a['v']
        raise Err
    if k == 'const':
        return x['v']
    if k == 'dot':
        a = ev(x['a'], f)
        if a['k'] != 'obj':
            raise Err
        return ev({'x': 'attr', 'n': x['n']}, a['f'])
    if k == 'at':
        a = ev(x['a'], f)
        items = a.get('i') if a['k'] == 'lst' else a.get('e') if a['k'] == 'tup' else None
        if items is None or len(items) <= x['i']:
            raise Err
        return items[x['i']]
    if k == 'len':
        n = length(ev(x['a'], f))
        if n < 0:
            raise Err
        return I(n)
    if k == 'mod':
        a = ev(x['a'], f)
        if a['k'] != 'int' or a['neg']:
            raise Err
        return I(num_of(a) % x['c'])
    if k == 'ge':
        a = ev(x['a'], f)
        if a['k'] != 'int':
            raise Err
        return Bo(num_of(a) >= x['c'])
    if k == 'eq':
        return Bo(ev(x['a'], f) == x['v'])
    if k == 'not':
        return Bo(not truthy(ev(x['a'], f)))
    if k == 'and':
        a = ev(x['a'], f)
        return ev(x['b'], f) if truthy(a) else a
    if k == 'or':
        a = ev(x['a'], f)
        return a if truthy(a) else ev(x['b'], f)
    if k == 'guard':
        if not truthy(ev(x['a'], f)):
            raise Err
        return ev(x['b'], f)
    raise AssertionError(k)


def attr(n):
    return {'x': 'attr', 'n': n}


# --- what the generator knows of classes ----------------------------------------------
def tvs(h):
    out = []
    fs = set(INTS) | set(FLOATS) | {'bool8', ''}
    k = h['k']
    if k == 'tv':
        out.append(h['n'])
    if k == 'dchar' and h['f'] not in fs:
        out.append(h['f'])
    if k == 'arr':
        out += [f for f in (h['cf'], h['sf']) if f not in fs]
    if k in ('uni', 'arr'):
        out += tvs(h['t'])
    for x in h.get('e', []) if k == 'tup' else h.get('a', []) if k == 'inst' else []:
        out += tvs(x)
    return out


def subst(h, m):
    k = h['k']
    h = dict(h)
    if k == 'tv':
        return m.get(h['n'], h)
    if k == 'dchar' and h['f'] in m:
        a = m[h['f']]
        if a['k'] == 'netm':
            return {'k': 'net', 'z': 0}
        h['f'] = a.get('f') or str(a.get('n', '?'))
    if k == 'arr':
        for f in ('cf', 'sf'):
            if h[f] in m:
                a = m[h[f]]
                h[f] = a.get('f') or str(a.get('n', '?'))
    if k in ('uni', 'arr'):
        h['t'] = subst(h['t'], m)
    if k == 'tup':
        h['e'] = [subst(x, m) for x in h['e']]
    if k == 'inst':
        h['a'] = [subst(x, m) for x in h['a']]
    return h


def serializable(h):
    return (h['k'] not in ('nil', 'plain', 'cvar', 'tv', 'netm', 'bad') and not tvs(h)
            and (h['k'] != 'tup' or all(map(serializable, h['e']))))


def ispad(h):
    return h['k'] == 'pad' or (h['k'] == 'cond' and h['t']['k'] == 'pad')


def isbasic(h):
    return h['k'] in ('num', 'char', 'pascal', 'pad', 'cust')


class Cls:
    def __init__(self, d, hints, params):
        self.d, self.hints, self.params = d, hints, params
        self.n, self.bo = d['n'], d['bo']

    @property
    def fs(self):
        return [(n, h) for n, h in self.hints if serializable(h)]

    @property
    def attrs(self):
        return [(n, h) for n, h in self.fs if not ispad(h)]


STR_SIMPLE = 'abcXYZ019 _'
STR_LATIN = 'é\xff\x80ü'
STR_WIDE = '€漢😀Ω'
NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'x', 'y', 'n', 'data', 'size', 'value', 'name', 'type', 'cls',
         'obj', 'items', 'count', 'other', 'args', 'buffer', 'object', 'int', 'list', '_x', 'x1', 'T']
TRICKY = {'size', 'type', 'cls', 'obj', 'object', 'int', 'list', 'other', 'args', 'T', 'name'}

BASE = dict(num=8, char=2, pascal=1, pad=1.2, cust=1.2, dchar=1.6, tchar=1.4, net=.8, uni=1.8,
            arr=3, tup=1.6, ref=1.6, lb=1.2, la=1, cond=1.3, vint=.5, u24=.4, rel=.4)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.w = dict(BASE)
        self.nfields = (1, 5)
        self.clusters = .02
        self.depth = 2
        self.finals = .12          # chance of a rest-of-data attribute at the end
        self.maxitems = 3
        self.reset()

    def reset(self):
        self.classes = {}
        self.events = []
        self.names = set()
        self.ids = 0
        self.mode = self.r.choice(['eager'] * 8 + ['string'] * 4 + ['nomod'])
        self.busy = self.chance(.15)
        self.lbls = 0
        self.last_bos = None

    def uid(self, p):
        self.ids += 1
        return f'{p}{self.ids}'

    def chance(self, p):
        return self.r.random() < p

    def weighted(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def scenario(self, ident):
        sc = {'id': ident, 'mode': self.mode, 'busy': self.busy, 'names': sorted(self.names),
              'events': [self.strip(e) for e in self.events]}
        return sc

    def strip(self, x):
        if isinstance(x, dict):
            return {k: self.strip(v) for k, v in x.items() if k != 'vals'}
        if isinstance(x, list):
            return [self.strip(v) for v in x]
        return x

    # -- types ------------------------------------------------------------------------
    def num(self):
        f = self.r.choice(list(INTS) * 2 + list(FLOATS) + ['bool8'])
        t = {'k': 'num', 'f': f}
        if self.chance(.08):
            t['sp'] = 'ann'
            if self.chance(.6):
                t['base'] = self.r.choice(['Optional[int]', 'Literal[1, 2]', '"int"', 'list[int]', 'int | None', 'None',
                                           'Union[int, str]', 'Any', 'Optional["int"]', 'type[int]', 'Tuple[int]', 'Optional[list[int]]',
                                           'Union[Literal[1], None]', 'Callable[[int], int]', 'Callable', 'NewType("N", int)',
                                           'Optional[tuple[int, ...]]', 'Union[Callable[[], None], None]', 'list["int"]'])
        return t

    def cust(self):
        r = self.r
        c = r.choice(['MyInt', 'MyInt', 'OtherInt', 'MyFloat', 'MyFlag', 'Even', 'MyBytes'])
        if c in ('MyInt', 'OtherInt', 'Even'):
            t = {'k': 'num', 'f': r.choice(list(INTS))}
        elif c == 'MyFloat':
            t = {'k': 'num', 'f': r.choice(list(FLOATS))}
        elif c == 'MyFlag':
            t = {'k': 'num', 'f': 'bool8'}
        else:
            t = r.choice([{'k': 'char', 'n': r.randint(0, 5)}, {'k': 'pascal', 'n': r.randint(1, 6)}])
        h = {'k': 'cust', 't': t, 'cn': c, 'fac': self.chance(.4)}
        if self.chance(.4):      # the same SerializeAs for several hints
            h['sh'] = True
        return h

    def string(self, kinds=('char', 'dchar', 'tchar', 'net'), final=False):
        r = self.r
        k = r.choice(kinds) if not final else 'cchar'
        if k == 'char':
            t = {'k': 'char', 'n': r.choice([0, 1, 2, 3, 5, 8, 13])}
        elif k == 'dchar':
            t = {'k': 'dchar', 'f': r.choice(COUNTS[:3] * 2 + COUNTS)}
        elif k == 'tchar':
            t = {'k': 'tchar', 'b': r.choice([0, 0, 0, 10, 65, 255])}
            if t['b'] == 0 and self.chance(.5):
                t['sp'] = 'alias'
        else:
            t = {'k': k, 'z': 0}
        if 'sp' not in t and self.chance(.08):
            t['sp'] = 'ann'
        return t

    def uni(self, final=False):
        s = self.string(final=final)
        s.pop('sp', None)
        t = {'k': 'uni', 't': s, 'enc': self.r.choice(ENCS)}
        if t['enc'] == 'utf8' and self.chance(.6):
            t['sp'] = 'alias'
        elif self.chance(.3):
            t['sp'] = 'inst'
        return t

    def basic(self, pads=False):
        w = {k: self.w[k] for k in ('num', 'char', 'pascal', 'cust')}
        if pads:
            w['pad'] = self.w['pad']
        if not any(w.values()):
            w['num'] = 1
        k = self.weighted(w)
        if k == 'num':
            return self.num()
        if k == 'cust':
            return self.cust()
        if k == 'pad':
            return {'k': 'pad', 'n': self.r.choice([1, 1, 2, 3, 5, 0])}
        if k == 'char':
            return self.string(('char',))
        return {'k': 'pascal', 'n': self.r.choice([1, 2, 3, 6, 10])}

    def cluster(self):
        """Neighbouring items of one kind, counts of zero among them."""
        r = self.r
        k = r.choice(['pad', 'pad', 'char', 'pascal'])
        n = lambda: r.choice([0, 0, 1, 1, 2, 3])
        if k == 'pascal':
            n = lambda: r.choice([1, 1, 2, 3])
        ts = [{'k': k, 'n': n()} for _ in range(r.choice([2, 2, 3, 4]))]
        if k == 'pad' and self.chance(.3):
            ts.insert(r.randrange(len(ts) + 1), {'k': 'char', 'n': n()})
        if self.chance(.7):
            ts.insert(0, self.num())
        if self.chance(.5):
            ts.append(self.num())
        return ts

    def nonempty(self, t):
        """Whether values of the type always take bytes."""
        k = t['k']
        if k == 'char':
            return t['n'] > 0
        if k == 'uni':
            return self.nonempty(t['t'])
        if k in ('num', 'pascal', 'dchar', 'tchar', 'net', 'vint', 'u24', 'rel'):
            return True
        if k == 'cust':
            return self.nonempty(t['t'])
        if k == 'arr':
            return t['cf'] != '' or t['sf'] != '' or (t['n'] > 0 and self.nonempty(t['t']))
        if k == 'tup':
            return any(self.nonempty(x) for x in t['e'])
        if k == 'ref':
            return any(self.nonempty(h) for _, h in self.classes[t['n']].fs)
        return False

    def arr(self, depth, prev, own, item=None):
        r = self.r
        t = item or (self.basic() if self.chance(.4) else self.type(depth - 1, prev, None, items=True))
        if self.chance(.3):
            cf, n = '', r.choice([0, 1, 2, 2, 3, 4])
        else:
            cf, n = r.choice(['uint8', 'uint8', 'uint16', 'uint32', 'uint64']), -1
        sf = r.choice(COUNTS) if self.chance(.3) else ''
        # huge counts of items that may be empty would take forever
        if not self.nonempty(t) and cf in ('uint16', 'uint32', 'uint64'):
            cf = 'uint8'
        if cf == 'uint64' and not self.chance(.3):
            cf = 'uint8'
        return {'k': 'arr', 'cf': cf, 'n': n, 'sf': sf, 't': t}

    def tup(self, depth, prev, own, final=False):
        n = self.r.choice([1, 2, 2, 3, 4])
        e = [self.basic() if self.chance(.5) else self.type(depth - 1, prev, None, items=True)
             for _ in range(n)]
        if final:
            e.append(self.final(depth - 1, prev))
        t = {'k': 'tup', 'e': e}
        if self.chance(.2):
            t['sp'] = 'alias'
        return t

    def final(self, depth, prev):
        """A type taking the rest of the data."""
        c = self.r.random()
        if depth <= 0 or c < .4:
            return self.string(final=True)
        if c < .65:
            return self.uni(final=True)
        if c < .8:
            return self.tup(depth, prev, None, final=True)
        if c < .9:
            return self.ref(final=True)
        t = self.lb(depth, prev, None)
        i = self.r.randrange(len(t['m']) + len(t['df']))
        f = self.final(0, prev)
        if i < len(t['m']):
            t['m'][i]['t'] = f
        else:
            t['df'] = [f]
        return t

    def ref(self, final=False):
        ok = [c for c in self.classes.values()
              if c.attrs and not c.d.get('generic') and self.isfinal(c) == final and not c.d.get('noref')]
        if ok and self.chance(.5):
            return {'k': 'ref', 'n': self.r.choice(ok).n}
        c = self.sub_class(final=final)
        return {'k': 'ref', 'n': c.n}

    def sub_class(self, fields=None, final=False, bo=None, nested=False):
        save = self.w, self.nfields, self.depth, self.finals
        self.w = dict(self.w, ref=self.w['ref'] * .3, la=self.w['la'] * .5)
        self.nfields, self.depth, self.finals = (1, 3), max(1, self.depth - 1), 1 if final else 0
        try:
            return self.new_class(bo=bo, first=fields)
        finally:
            self.w, self.nfields, self.depth, self.finals = save

    def isfinal_type(self, t):
        k = t['k']
        if k == 'cchar':
            return True
        if k in ('uni', 'cond'):
            return self.isfinal_type(t['t'])
        if k == 'tup':
            return any(map(self.isfinal_type, t['e']))
        if k == 'ref':
            return self.isfinal(self.classes[t['n']])
        if k == 'inst':
            return False
        if k in ('lb', 'la'):
            return any(self.isfinal_type(m['t']) for m in t['m']) or any(map(self.isfinal_type, t['df']))
        return False

    def isfinal(self, c):
        return any(self.isfinal_type(h) for _, h in c.fs)

    def lbl(self):
        self.lbls += 1
        return f'q{self.lbls}'

    # -- expressions over earlier attributes
    def sources(self, prev):
        """Scalar things reachable from earlier attributes: (expression, type-ish kind, vals)."""
        out = []
        for n, t in prev:
            self._sources(attr(n), t, out, 0)
        return out

    def _sources(self, x, t, out, d):
        k = t['k']
        if k == 'num':
            if t['f'] == 'bool8':
                out.append((x, 'bool', t.get('vals')))
            elif t['f'] in FLOATS:
                out.append((x, 'flt', None))
            else:
                out.append((x, 'uint' if t['f'][0] == 'u' else 'int', t.get('vals')))
        elif k in ('vint', 'u24', 'rel'):
            out.append((x, 'uint', None))
        elif k in ('char', 'uni', 'pascal') and t.get('vals'):
            out.append((x, 'key', t['vals']))
        elif k in ('dchar', 'net', 'uni', 'tchar', 'pascal'):
            out.append(({'x': 'len', 'a': x}, 'uint', None))
        elif k == 'arr':
            if t['cf']:
                out.append(({'x': 'len', 'a': x}, 'uint', None))
            elif t['n'] > 0 and d < 2:
                self._sources({'x': 'at', 'a': x, 'i': self.r.randrange(t['n'])}, t['t'], out, d + 1)
        elif k == 'tup' and d < 2:
            i = self.r.randrange(len(t['e']))
            self._sources({'x': 'at', 'a': x, 'i': i}, t['e'][i], out, d + 1)
        elif k == 'ref' and d < 2:
            for n, h in self.classes[t['n']].attrs[:3]:
                self._sources({'x': 'dot', 'a': x, 'n': n}, h, out, d + 1)

    def keyed(self, prev):
        """(expression, possible keys) for a union."""
        r = self.r
        src = self.sources(prev)
        if not src or self.chance(.05):
            v = self.pick_keys()[:1]
            return {'x': 'const', 'v': v[0]}, v + [I(77)]
        src = [s for s in src if s[2]] or src if self.chance(.6) else src
        x, kind, vals = r.choice(src)
        if vals:
            return x, list(vals)
        if kind == 'bool':
            return x, [Bo(True), Bo(False)]
        if kind == 'uint':
            c = r.random()
            if c < .6:
                m = r.choice([2, 2, 3])
                return {'x': 'mod', 'a': x, 'c': m}, [I(i) for i in range(m)]
            return {'x': 'ge', 'a': x, 'c': r.choice([1, 2, 100])}, [Bo(True), Bo(False)]
        if kind == 'int':
            return {'x': 'ge', 'a': x, 'c': 0}, [Bo(True), Bo(False)]
        return {'x': 'not', 'a': x}, [Bo(True), Bo(False)]

    def boolean(self, prev, d=0):
        r = self.r
        src = self.sources(prev)
        if not src:
            return {'x': 'const', 'v': r.choice([Bo(True), Bo(False), I(0), I(3), By(b''), By(b'z'), NONE])}
        c = r.random()
        x, kind, vals = r.choice(src)
        if d < 2 and c < .12:
            return {'x': 'and', 'a': self.boolean(prev, d + 1), 'b': self.boolean(prev, d + 1)}
        if d < 2 and c < .24:
            return {'x': 'or', 'a': self.boolean(prev, d + 1), 'b': self.boolean(prev, d + 1)}
        if d < 2 and c < .32:
            return {'x': 'not', 'a': self.boolean(prev, d + 1)}
        if c < .4:
            return r.choice([a for a in [attr(n) for n, _ in prev]])
        if vals:
            return {'x': 'eq', 'a': x, 'v': r.choice(vals)}
        if kind == 'uint' and c < .7:
            return {'x': 'mod', 'a': x, 'c': r.choice([2, 2, 3])}
        if kind in ('uint', 'int') and c < .9:
            return {'x': 'ge', 'a': x, 'c': r.choice([0, 1, 2, 50])}
        return x

    def pick_keys(self):
        r = self.r
        c = r.random()
        if c < .5:
            return [I(i) for i in r.sample(range(0, 5), 3)]
        if c < .6:
            return [I(i) for i in (-1, 0, 1)]
        if c < .75:
            return [By(bytes([x])) for x in r.sample(range(65, 70), 3)]
        if c < .9:
            return [St(x) for x in ('k', 'xy', 'é')][:3]
        return [Bo(True), Bo(False)]

    def key_field(self):
        keys = self.pick_keys()
        k = keys[0]['k']
        r = self.r
        if k == 'int':
            t = {'k': 'num', 'f': r.choice(['int8', 'int16', 'int32'] if any(x['neg'] for x in keys)
                                          else ['uint8', 'uint8', 'uint16', 'int32', 'uint64'])}
        elif k == 'bool':
            t = {'k': 'num', 'f': 'bool8'}
        elif k == 'byt':
            t = r.choice([{'k': 'char', 'n': 1}, {'k': 'pascal', 'n': 3}, {'k': 'dchar', 'f': 'uint16'}])
        else:
            t = {'k': 'uni', 't': self.string(('dchar', 'tchar', 'net')), 'enc': r.choice(['utf8', 'latin1'])}
            t['t'].pop('sp', None)
        t['vals'] = keys
        return t

    def alt(self, depth, prev):
        if self.chance(.45) or depth <= 0:
            return self.basic()
        return self.type(depth - 1, prev, None, items=True, inunion=True)

    def distinct(self, ts):
        """Union alternatives are told apart by hint."""
        out = []
        for t in ts:
            if all(self.strip(t) != self.strip(u) for u in out):
                out.append(t)
        return out

    def lb(self, depth, prev, own):
        d, keys = self.keyed(prev)
        keys = list(keys)
        self.r.shuffle(keys)
        nm = max(1, len(keys) - (1 if self.chance(.3) else 0))
        m = [{'key': k, 't': self.alt(depth, prev)} for k in keys[:nm]]
        df = [self.alt(depth, prev)] if self.chance(.4) else []
        t = {'k': 'lb', 'd': d, 'm': m, 'df': df, 'lbl': self.lbl()}
        if not df and self.chance(.5):
            t['sp'] = 'nodef'
        return t

    def la(self, depth, prev, own):
        """Alternatives starting with something of the type that is read ahead."""
        r = self.r
        key = self.key_field()
        keys = list(key['vals'])
        if self.chance(.15):     # composite keys
            key = {'k': 'tup', 'e': [key, {'k': 'num', 'f': 'uint8', 'vals': [I(0), I(9)]}]}
            keys = [Tup([a, b]) for a in keys for b in (I(0), I(9))]
            r.shuffle(keys)
            keys = keys[:3]
        elif self.chance(.08):
            key = {'k': 'arr', 'cf': '', 'n': 1, 'sf': '', 't': key}   # lists are unhashable: an error
            key = key['t']
        style = r.choice(['rec', 'rec', 'tup'])
        if key['k'] == 'num' and not any(k['neg'] for k in keys if k['k'] == 'int') and keys[0]['k'] == 'int' and self.chance(.25):
            # a user written serializer is read ahead
            if self.chance(.5):
                key = {'k': r.choice(['vint', 'u24']), 'z': 0, 'vals': keys}
            else:
                style = 'tup'
                key = dict(self.rel(prev), m='rw', vals=keys)
        elif self.chance(.12):
            # something that is decided itself
            style = 'tup'
            if self.chance(.5):
                key = {'k': 'cond', 't': key, 'd': self.boolean(prev), 'dv': [r.choice(keys)], 'lbl': self.lbl(), 'vals': keys}
            else:
                d, ks = self.keyed(prev)
                key = {'k': 'lb', 'd': d, 'm': [{'key': ks[0], 't': key}], 'df': [{'k': 'num', 'f': 'uint8', 'vals': [I(0), I(9)]}],
                       'lbl': self.lbl(), 'vals': keys}
        m, used = [], keys[:r.choice([1, 2, 3])]
        df = []
        n = len(used) + (1 if self.chance(.35) else 0)
        for i in range(n):
            if style == 'rec':
                c = self.sub_class(fields=[('sig', key)], bo=self.cur_bo if self.chance(.8) else None)
                c.d['noref'] = True
                a = {'k': 'ref', 'n': c.n}
            else:
                a = {'k': 'tup', 'e': [key] + [self.basic() if self.chance(.6) else self.type(depth - 1, prev, None, items=True)
                                              for _ in range(r.choice([1, 1, 2]))]}
            if i < len(used):
                m.append({'key': used[i], 't': a})
            else:
                df = [a]
        if own is not None:
            d = {'x': 'dot', 'a': attr(own), 'n': 'sig'} if style == 'rec' else {'x': 'at', 'a': attr(own), 'i': 0}
        else:
            d, _ = self.keyed(prev)
            if self.chance(.7):
                ks = [n for n, t in prev if t.get('vals') == key.get('vals')]
                if ks:
                    d = attr(ks[0])
                else:
                    d = {'x': 'const', 'v': used[0]}
        return {'k': 'la', 'r': key, 'd': d, 'm': m, 'df': df, 'lbl': self.lbl(), 'vals': used, 'style': style,
                'own': own is not None}

    def cond(self, depth, prev, own):
        if self.chance(.15):
            return {'k': 'cond', 't': {'k': 'pad', 'n': self.r.choice([1, 2, 4])}, 'd': self.boolean(prev),
                    'dv': [], 'lbl': self.lbl()}
        t = self.basic() if self.chance(.4) else self.type(depth - 1, prev, own, items=True)
        if t['k'] == 'cond' and (ispad(t) or self.chance(.5)):
            t = self.basic()
        elif self.chance(.1):
            t = {'k': 'cond', 't': t, 'd': self.boolean(prev), 'dv': [self.r.choice([NONE, I(8), St('inner')])], 'lbl': self.lbl()}
        dv = NONE
        if self.chance(.6):
            try:
                v = self.val(t, [], None, 0)
                if not self.mutable(v):
                    dv = v
            except (NoValue, Err):
                pass
        elif self.chance(.5):
            dv = self.r.choice([I(-5), St('none'), Tup([]), Bo(False)])
        return {'k': 'cond', 't': t, 'd': self.boolean(prev), 'dv': [dv], 'lbl': self.lbl()}

    def mutable(self, v):
        if v['k'] in ('lst', 'obj', 'cust'):
            return True
        return v['k'] == 'tup' and any(map(self.mutable, v['e']))

    def type(self, depth, prev, own, items=False, inunion=False):
        w = dict(self.w)
        if items:
            w['pad'] = 0
        if depth <= 0:
            for k in ('arr', 'tup', 'ref', 'lb', 'la', 'cond'):
                w[k] = 0
        if inunion:
            w['cond'] = 0
        if not any(w.values()):
            w['num'] = 1
        k = self.weighted(w)
        if k == 'cond' and items:
            t = self.cond(depth, prev, own)
            while ispad(t):
                t = self.cond(depth, prev, own)
            return t
        if k in ('num', 'cust', 'char', 'pascal', 'pad'):
            return {'num': self.num, 'cust': self.cust, 'char': lambda: self.string(('char',)),
                    'pascal': lambda: {'k': 'pascal', 'n': self.r.choice([1, 2, 3, 6, 10])},
                    'pad': lambda: {'k': 'pad', 'n': self.r.choice([1, 1, 2, 3, 5, 0])}}[k]()
        if k in ('dchar', 'tchar', 'net'):
            return self.string((k,))
        if k == 'uni':
            return self.uni()
        if k == 'ref':
            return self.ref()
        if k in ('vint', 'u24'):
            return {'k': k, 'z': 0}
        if k == 'rel':
            return self.rel(prev)
        return getattr(self, k)(depth, prev, own)

    def rel(self, prev):
        r = self.r
        src = [x for x, kind, _ in self.sources(prev) if kind in ('uint', 'int')]
        d = {'x': 'mod', 'a': r.choice(src), 'c': 256} if src else {'x': 'const', 'v': I(r.choice([0, 1, 200]))}
        if prev and self.chance(.05):
            d = attr(r.choice(prev)[0])
        return {'k': 'rel', 'm': r.choice(['r', 'w', 'rw', 'rw']), 'd': d}

    # -- classes ------------------------------------------------------------------------
    cur_bo = ''

    def bo(self):
        # nested classes mostly in the order of their surroundings
        if self.last_bos is not None and self.chance(.5):
            return self.last_bos
        self.last_bos = self.r.choice(BOS)
        return self.last_bos

    def attr_name(self, used):
        pool = [n for n in NAMES if n not in used]
        if self.chance(.75):
            pool = [n for n in pool if n not in TRICKY] or pool
        return self.r.choice(pool) if pool else f'z{len(used)}'

    def new_class(self, bo=None, first=None, fields=None, **kw):
        """A class of random fields (after `first`, or exactly `fields`), defined by an event."""
        name = self.uid('K')
        bo = self.bo() if bo is None else bo
        save, self.cur_bo = self.cur_bo, bo
        own = list(first or [])
        if fields is not None:
            own = list(fields)
        else:
            if self.chance(.35) and (self.w['lb'] or self.w['cond'] or self.w['la']):
                own.append((self.attr_name([n for n, _ in own]), self.key_field()))
            for _ in range(self.r.randint(*self.nfields)):
                if self.w['pad'] and self.w['char'] and self.w['pascal'] and self.w['num'] and self.chance(self.clusters):
                    for t in self.cluster():
                        own.append(('_' if ispad(t) else self.attr_name([n for n, _ in own]), t))
                n = self.attr_name([n for n, _ in own])
                t = self.type(self.depth, own_attrs(own), n)
                own.append(('_' if ispad(t) and self.chance(.9) else n, t))
            if self.depth > 1 and self.chance(.05):      # a long one
                for _ in range(self.r.randint(6, 12)):
                    t = self.type(0, own_attrs(own), '')
                    own.append(('_' if ispad(t) else self.attr_name([n for n, _ in own]), t))
            if self.chance(self.finals):
                n = self.attr_name([n for n, _ in own])
                own.append((n, self.final(self.depth, own_attrs(own))))
        self.cur_bo = save
        return self.define(name, own, bo=bo, **kw)

    def define(self, name, own, bases=(), gp=(), bo='', mode='strict', **extra):
        own = [(n, self.dress(h)) for n, h in own]
        d = {'n': name, 'bases': [{'n': n, 'a': list(a)} for n, a in bases], 'gp': list(gp), 'bo': bo,
             'mode': mode, 'init': True, 'own': [{'n': n, 'h': h} for n, h in own]}
        d.update(extra)
        if self.chance(.15):
            d['touch'] = True
        hints, params = self.resolve(d)
        c = Cls(d, hints, params)
        if not d['init']:
            d['initargs'] = [n for n, _ in c.attrs]
        self.classes[name] = c
        self.names.update(n for n, h in c.attrs)
        self.events.append({'op': 'define', 'c': d})
        return c

    DRESSED = ('num', 'pad', 'char', 'pascal', 'dchar', 'tchar', 'net', 'cchar', 'uni', 'arr', 'tup', 'ref', 'inst', 'self', 'tv', 'lb', 'la', 'cond',
               'cust', 'vint', 'u24', 'rel')

    def dress(self, h):
        """Annotations that mean nothing to the library, here and there."""
        if not isinstance(h, dict) or h.get('k') in ('bad', 'plain'):
            return h
        h = dict(h)
        if h['k'] not in ('uni', 'cust') and isinstance(h.get('t'), dict):
            h['t'] = self.dress(h['t'])
        if 'e' in h:
            h['e'] = [self.dress(x) for x in h['e']]
        if h['k'] in self.DRESSED and self.chance(.015):
            h['meta'] = self.r.choice(['{}', '[]', '"doc"', '5', 'None', '"doc", {}', '("a", [])', 'object()'])
        return h

    def resolve(self, d):
        hints, params = [], list(d['gp'])
        if d['bases']:
            b = self.classes.get(d['bases'][0]['n'])
            if b:
                a = d['bases'][0]['a']
                m = dict(zip(b.params, a))
                hints = [(n, subst(h, m)) for n, h in b.hints]
                if not params:
                    params = list(dict.fromkeys(x for h in a for x in tvs(h)))
        for x in d['own']:
            n, h = x['n'], x['h']
            if n == '_' and ispad(h):
                hints.append(('#pad', h))
            elif any(m == n for m, _ in hints):
                hints = [(m, h if m == n else g) for m, g in hints]
            else:
                hints.append((n, h))
        return hints, params

    # -- values ----------------------------------------------------------------------------
    def int_val(self, f):
        r = self.r
        size, signed = INTS[f]
        lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
        c = r.random()
        if c < .25:
            return r.choice([lo, hi, 0, 1, hi - 1, lo + 1])
        if c < .55:
            return min(hi, max(lo, r.randint(-3, 20)))
        # every byte different, so that swapped bytes show
        n = int.from_bytes(bytes(r.randrange(256) for _ in range(size)), 'little')
        return n if not signed or n <= hi else n - (1 << 8 * size)

    def float_val(self, f):
        r = self.r
        c = r.random()
        if c < .3:
            return Fl(r.choice([0.0, -0.0, 1.0, -1.5, 2.0, 0.5]))
        if c < .4:
            return Fl(r.choice([float('inf'), float('-inf')]))
        if c < .45:
            return {'k': 'flt', 'd': [127, 248, 0, 0, 0, 0, 0, 0]}
        n = struct.calcsize(FLOATS[f])
        x = struct.unpack('>' + FLOATS[f], bytes(r.randrange(256) for _ in range(n)))[0]
        return Fl(x) if x == x else Fl(3.0)

    def raw(self, n):
        r = self.r
        c = r.random()
        if c < .5:
            return bytes(r.choice(b'abcxyz') for _ in range(n))
        return bytes(r.choice([0, 10, 65, 127, 128, 255, r.randrange(256)]) for _ in range(n))

    def str_len(self):
        r = self.r
        return r.choice([0, 0, 1, 1, 2, 3, 3, 4, 5, 7, 9, 15]) if self.chance(.97) else \
            r.choice([127, 128, 129, 255, 256, 257, 300, 511, 513])

    def content(self, t):
        """Bytes for a string type, mostly without losses."""
        r = self.r
        n = self.str_len()
        if t['k'] == 'char':
            n = t['n'] if self.chance(.6) else max(0, t['n'] + r.choice([-2, -1, 1, 3]))
        s = self.raw(n)
        if t['k'] == 'tchar':
            if self.chance(.9):
                s = bytes(x if x != t['b'] else (t['b'] + 1) % 256 for x in s)
            if self.chance(.25):
                s += bytes([t['b']])
        return s

    def text(self, t, n=None):
        r = self.r
        enc = t['enc']
        pool = STR_SIMPLE
        if enc in ('latin1', 'xor') and self.chance(.5):
            pool += STR_LATIN
        elif enc in ('utf8', 'utf16', 'rev') and self.chance(.5):
            pool += STR_LATIN + STR_WIDE
        n = self.str_len() if n is None else n
        if t['t']['k'] == 'char':
            n = min(n, t['t']['n'])
            if self.chance(.8):
                pool = STR_SIMPLE
                if enc == 'utf16':
                    n = min(n, t['t']['n'] // 2)
        s = ''.join(r.choice(pool) for _ in range(n))
        if self.chance(.06):
            s += '\0'
        if self.chance(.05):
            s = s[:1] + '\0' + s[1:]
        return s

    def val(self, t, f, me, depth, own=None):
        """A (mostly representable) value of type t for an object of class `me` with fields f."""
        r = self.r
        if t.get('vals') and t['k'] not in ('la',):
            if self.chance(.93):
                return r.choice(t['vals'])
        k = t['k']
        if k == 'num':
            if t['f'] == 'bool8':
                return Bo(self.chance(.5))
            return self.float_val(t['f']) if t['f'] in FLOATS else I(self.int_val(t['f']))
        if k == 'char':
            return By(self.content(t))
        if k == 'pascal':
            return By(self.raw(r.choice([0, t['n'] - 1, r.randrange(t['n']), t['n']])))
        if k == 'pad':
            return NONE
        if k == 'cust':
            v = self.val(t['t'], f, me, depth)
            if t['cn'] == 'Even':
                n = num_of(v)
                v = I(n - n % 2)
            return {'k': 'cust', 'cn': t['cn'], 'w': v}
        if k in ('dchar', 'tchar', 'net', 'cchar'):
            return By(self.content(t))
        if k == 'uni':
            return St(self.text(t))
        if k == 'vint':
            return I(r.choice([0, 1, 127, 128, 300, 16383, 16384, (1 << 24) - 1]))
        if k == 'u24':
            return I(r.choice([0, 1, 0x010203, (1 << 24) - 1]))
        if k == 'rel':
            n = r.choice([0, 1, 2, 9, 127, 128, 254, 255])
            if t['m'] != 'rw':
                try:
                    b = ev(t['d'], f)
                    if b['k'] == 'int' and n % 8 == num_of(b) % 8 and self.chance(.95):
                        n ^= 4
                except Err:
                    pass
            return I(n)
        if k == 'arr':
            n = t['n'] if t['cf'] == '' else (r.choice([0, 1, 1, 2, 2, self.maxitems]) if depth < 3 else 0)
            if t['cf'] and self.budget <= 2 and t['t']['k'] not in ('num', 'char'):
                n = 0
            if t['cf'] and depth == 0 and isbasic(t['t']) and self.chance(.05):
                n = r.choice([7, 17])
            return Lst([self.val(t['t'], f, me, depth + (t['t']['k'] in ('self',)), own) for _ in range(n)])
        if k == 'tup':
            return Tup([self.val(x, f, me, depth) for x in t['e']])
        if k == 'ref':
            return self.obj(self.classes[t['n']], depth)
        if k == 'inst':
            g = self.classes[t['n']]
            m = dict(zip(g.params, t['a']))
            return self.obj(Cls(g.d, [(n, subst(h, m)) for n, h in g.hints], []), depth)
        if k == 'self':
            self.budget -= 1
            if depth > self.selfdepth or self.budget < 0:
                raise NoValue
            return self.obj(me, depth + 1)
        if k == 'lb':
            key = ev(t['d'], f)
            alt = [m['t'] for m in t['m'] if m['key'] == key] or t['df']
            if not alt:
                raise NoValue
            return self.val(alt[0], f, me, depth)
        if k == 'la':
            if t['own'] and own is not None:
                key = r.choice(t['vals'])
                if t['df'] and self.chance(.3):
                    key = None
            else:
                key = ev(t['d'], f)
            alt = [m['t'] for m in t['m'] if m['key'] == key] or t['df']
            if not alt:
                raise NoValue
            v = self.val(alt[0], f, me, depth)
            if key is not None and self.chance(.93):
                if v['k'] == 'obj':
                    v['f'][0]['v'] = key
                else:
                    v['e'][0] = key
            return v
        if k == 'cond':
            c = truthy(ev(t['d'], f))
            if c or self.chance(.3):
                return self.val(t['t'], f, me, depth, own)
            if self.chance(.8):
                return t['dv'][0] if t['dv'] else NONE
            return r.choice([NONE, I(-1), St('?')])
        raise AssertionError(k)

    selfdepth = 3
    nodes = 9          # objects of a recursive value, about
    budget = nodes

    def obj(self, c, depth=0):
        for attempt in range(10):
            if depth == 0:
                self.budget = self.nodes
            f = []
            try:
                for n, t in c.attrs:
                    f.append({'n': n, 'v': self.val(t, f, c, depth, own=n)})
                return {'k': 'obj', 'cls': c.n, 'f': f}
            except (NoValue, Err):
                continue
        raise NoValue

    # -- values that (most likely) cannot be packed -----------------------------------------
    def spoil(self, t, v, me):
        """The value with one part replaced by something that likely does not fit."""
        r = self.r
        k = t['k']
        if k == 'num':
            if t['f'] == 'bool8':
                return None
            if t['f'] in FLOATS:
                return r.choice([NONE, St('1'), By(b'1')] + ([Fl(1e300)] if t['f'] != 'float64' else []))
            size, signed = INTS[t['f']]
            lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
            return r.choice([I(lo - 1), I(hi + 1), I(lo - 1), I(hi + 1), I(-(1 << 70)), Fl(1.0), NONE, St('1'), By(b'1')])
        if k in ('char', 'pascal', 'dchar', 'tchar', 'net', 'cchar'):
            if k == 'dchar' and t['f'] == 'uint8' and self.chance(.5):
                return By(b'q' * r.choice([256, 257, 300]))
            return r.choice([NONE, I(1), St('text'), Fl(0.0)])
        if k == 'cust':
            return r.choice([NONE, {'k': 'str', 'c': [65]}])
        if k == 'uni':
            if t['enc'] in ('ascii', 'latin1', 'xor') and self.chance(.6):
                return St('ok€')
            if t['enc'] in ('utf8', 'utf16', 'rev') and self.chance(.4):
                return {'k': 'str', 'c': [97, 0xd800]}
            if t['t']['k'] == 'dchar' and t['t']['f'] == 'uint8' and self.chance(.5):
                return St('w' * 256)
            return r.choice([NONE, I(1), By(b'text')])
        if k == 'vint':
            return r.choice([I(-1), I(1 << 24), NONE, St('1')])
        if k == 'u24':
            return r.choice([I(-1), I(1 << 24), NONE, St('1')])
        if k == 'rel':
            return r.choice([I(-1), I(256), NONE, St('1')])
        if k == 'arr' and v['k'] == 'lst':
            if v['i'] and self.chance(.6):
                i = r.randrange(len(v['i']))
                x = self.spoil(t['t'], v['i'][i], me)
                return x and Lst(v['i'][:i] + [x] + v['i'][i + 1:])
            if t['cf'] == '':
                return r.choice([Lst(v['i'][:-1]), Lst(v['i'] + v['i'][-1:]), NONE]) if v['i'] else NONE
            if t['cf'] == 'uint8' and v['i'] and isbasic(t['t']) and self.chance(.5):
                return Lst((v['i'] * 256)[:256])
            if t['sf'] == 'uint8' and v['i'] and self.chance(.6):
                return Lst(v['i'] * 200)
            return r.choice([NONE, I(2)])
        if k == 'tup' and v['k'] == 'tup':
            if self.chance(.7):
                i = r.randrange(len(v['e']))
                x = self.spoil(t['e'][i], v['e'][i], me)
                return x and Tup(v['e'][:i] + [x] + v['e'][i + 1:])
            return r.choice([Tup(v['e'][:-1]), Tup(v['e'] + v['e'][-1:]), NONE])
        if k in ('ref', 'self') and v['k'] == 'obj':
            if self.chance(.85):
                return self.spoil_obj(self.classes[t['n']] if k == 'ref' else me, v)
            return r.choice([NONE, I(3)])
        if k == 'lb' or k == 'la':
            try:
                alts = [m['t'] for m in t['m']] + t['df']
                return self.spoil(r.choice(alts), v, me)
            except (KeyError, IndexError):
                return NONE
        if k == 'cond':
            return self.spoil(t['t'], v, me)
        return None

    def spoil_obj(self, c, v):
        fs = dict(c.attrs)
        for _ in range(5 if v['f'] else 0):
            i = self.r.randrange(len(v['f']))
            n = v['f'][i]['n']
            if fs[n].get('vals') and self.chance(.4):
                x = {'int': I(111), 'bool': Bo(True), 'byt': By(b'~'), 'str': St('~~')}.get(v['f'][i]['v']['k'])
            else:
                x = self.spoil(fs[n], v['f'][i]['v'], c)
            if x:
                w = copy.deepcopy(v)
                w['f'][i]['v'] = x
                return w
        return None

    # -- programs ------------------------------------------------------------------------------
    def emit(self, op, **kw):
        self.events.append({'op': op, **kw})

    def new(self, c, v, kw=None):
        o = self.uid('o')
        e = {'op': 'new', 'o': o, 'c': c.n, 'a': [f['v'] for f in v['f']]}
        if kw if kw is not None else self.chance(.2):
            e['kw'] = [f['n'] for f in v['f']]
        self.events.append(e)
        return o

    def pack(self, o, g='', frm=''):
        label = self.uid('p')
        self.emit('pack', o=o, label=label, g=g, **({'from': frm} if frm else {}))
        return label

    def bufkind(self):
        return self.r.choice(['bytes', 'bytearray', 'mv', 'romv', 'arr', 'mmap', 'bytes', 'bytearray'])

    def wbufkind(self):
        return self.r.choice(['bytearray', 'mv', 'arr', 'mmap', 'bytearray'])

    def filekind(self):
        return 'disk' if self.chance(.1) else 'mem'

    def junk(self, n):
        return [self.r.randrange(256) for _ in range(n)]

    def pack_into(self, o, ref, g='', extra=None, off=None):
        b = self.uid('b')
        off = self.r.choice([0, 0, 1, 2, 3, 5, 8]) if off is None else off
        extra = self.r.choice([0, 0, 1, 4, 7]) if extra is None else extra
        self.emit('buf', id=b, kind=self.wbufkind(), b=[], room={'ev': ref, 'off': off, 'extra': extra,
                                                                'fill': self.r.randrange(256)})
        self.emit('packinto', o=o, buf=b, off=off, g=g, noff=self.chance(.5))
        return b

    def pack_write(self, o, g='', file=None):
        if file is None:
            file = self.uid('f')
            b = self.junk(self.r.choice([0, 0, 3, 6]))
            p = self.r.choice([len(b), len(b), self.r.randint(0, len(b))])
            self.emit('file', id=file, kind=self.filekind(), b=b, p=p)
        self.emit('packwrite', o=o, file=file, g=g)
        return file

    def unpack(self, c, src, way=None, new=True, target=None, final=False, g='', frm='', pre=None, post=None):
        """Unpack data (list of src pieces) by a random entry point; the object id."""
        r = self.r
        way = way or r.choice(['unpack', 'unpackfrom', 'unpackread'])
        pre = self.junk(r.choice([0, 0, 1, 3, 4])) if pre is None else pre
        post = self.junk(r.choice([0, 1, 5])) if post is None else post
        if final:
            post = []
        if way == 'unpack':
            pre = []
        o = self.uid('o') if new else target
        cc = c.n if new else ''
        full = [{'lit': pre}] + src + [{'lit': post}]
        ident = self.uid('b')
        extra = {'from': frm} if frm else {}
        if way == 'unpackread':
            self.emit('file', id=ident, kind=self.filekind(), b=[], src=full, p=0, poff=len(pre))
            self.emit('unpackread', o=o, c=cc, file=ident, g=g, **extra)
        else:
            self.emit('buf', id=ident, kind=self.bufkind(), b=[], src=full)
            if way == 'unpack':
                self.emit('unpack', o=o, c=cc, buf=ident, g=g, **extra)
            else:
                self.emit('unpackfrom', o=o, c=cc, buf=ident, off=len(pre), g=g, noff=self.chance(.5), **extra)
        self.last_src = ident
        return o

    WAYS = ['unpack', 'unpackfrom', 'unpackread']

    def full(self, c, packs=3, unpacks=6, repack=True, o=None, v=None):
        """One object through every entry point."""
        try:
            v = v or self.obj(c)
        except NoValue:
            return None
        try:
            w = self.obj(c)
        except NoValue:
            w = v
        final = self.isfinal(c)
        g1, g2 = self.uid('g'), self.uid('g')
        if o is None:
            o = self.new(c, v)
        L = self.pack(o, g=g1)
        for p in self.r.sample(['into', 'write'], min(2, packs - 1)):
            if p == 'into':
                self.pack_into(o, L, g=g1)
            else:
                self.pack_write(o, g=g1)
        if self.chance(.15):
            self.turned(c, o)
        ways = [(x, n) for x in self.WAYS for n in (True, False)]
        self.r.shuffle(ways)
        tgt = None
        for way, new in ways[:unpacks]:
            if not new and tgt is None:
                tgt = self.new(c, w)
            x = self.unpack(c, [{'ev': L}], way, new, tgt, final, g=g2, frm=L)
            if repack and self.chance(.3):
                self.pack(x, frm=L)
        return o, L

    def turned(self, c, o):
        """An object given another byte order, which is used: nothing that was there before notices."""
        y = self.uid('o')
        self.emit('wbo', o=o, r=y, bo=self.r.choice([b for b in BOS if b != c.bo]))
        L = self.pack(y)
        if self.chance(.5):
            self.unpack(c, [{'ev': L}], None, False, y, self.isfinal(c), frm=L)
            self.pack(y, frm=L)
        if self.chance(.7):
            self.pack(o)

    def lite(self, c):
        try:
            v = self.obj(c)
        except NoValue:
            return None
        final = self.isfinal(c)
        o = self.new(c, v)
        L = self.pack(o)
        x = self.unpack(c, [{'ev': L}], final=final, frm=L)
        if self.chance(.5):
            self.pack(x, frm=L)
        return o, L

    def sweep(self, c, L, tgt, kind, cap, final, ways=3, rot=0):
        ws = [['unpack', True, self.bufkind()], ['unpackfrom', True, self.bufkind()], ['unpackread', True, 'mem'],
              ['unpack', False, self.bufkind()], ['unpackfrom', False, self.bufkind()], ['unpackread', False, 'mem']]
        self.r.shuffle(ws)
        self.emit('sweep', ev=L, kind=kind, cap=cap, c=c.n, t=tgt, ways=ws[:ways], pre=self.junk(self.r.choice([0, 2])),
                  post=[] if kind == 'cut' or final else self.junk(self.r.choice([0, 3])),
                  xor=[self.r.choice([1, 2, 4, 128, 255, 3, 16]) for _ in range(5)], eq=True, rot=rot)


def own_attrs(own):
    return [(n, h) for n, h in own if not ispad(h) and h['k'] not in ('nil', 'plain', 'cvar')]
